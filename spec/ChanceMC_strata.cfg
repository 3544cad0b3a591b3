SPECIFICATION Spec
CONSTANTS Flaw = "strata" Len1 = 3 Draw1 = 2
INVARIANTS Exact
CHECK_DEADLOCK FALSE
