SPECIFICATION Spec
CONSTANTS Flaw = "low" Len1 = 3 Draw1 = 2
INVARIANTS Exact
CHECK_DEADLOCK FALSE
