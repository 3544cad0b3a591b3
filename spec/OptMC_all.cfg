SPECIFICATION Spec
CONSTANTS MaxCases = 6 MaxFeats = 4 Round = "up" Known = FALSE
INVARIANTS Positive Shares Everything Sizes Whole
CHECK_DEADLOCK FALSE
