SPECIFICATION Spec
CONSTANT Flaw = "first" MaxG = 3
INVARIANTS Numbering
PROPERTY Order
CHECK_DEADLOCK FALSE
