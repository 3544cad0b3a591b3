SPECIFICATION Spec
CONSTANT Flaw = "unknown" MaxG = 3
INVARIANTS Exists Unknowns
PROPERTY Order
CHECK_DEADLOCK FALSE
