SPECIFICATION Spec
CONSTANTS MaxCases = 6 MaxFeats = 4 Round = "down" Known = TRUE
INVARIANTS Positive Shares Everything Sizes Whole
CHECK_DEADLOCK FALSE
