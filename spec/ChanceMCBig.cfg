SPECIFICATION Spec
CONSTANTS Flaw = "none" Len1 = 4 Draw1 = 3
INVARIANTS Possible Exact Whole Rejecting
CHECK_DEADLOCK FALSE
