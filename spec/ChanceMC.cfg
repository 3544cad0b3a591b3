SPECIFICATION Spec
CONSTANTS Flaw = "none" Len1 = 3 Draw1 = 2
INVARIANTS Possible Exact Whole Rejecting
CHECK_DEADLOCK FALSE
