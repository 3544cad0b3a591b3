SPECIFICATION Spec
CONSTANT Flaw = "none" MaxG = 4
INVARIANTS Exists FromGroup Unknowns Numbering
PROPERTY Order
CHECK_DEADLOCK FALSE
