SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 2
 Max = 3
 Keep = "judged"
INVARIANT Honest
INVARIANT Unbeaten
