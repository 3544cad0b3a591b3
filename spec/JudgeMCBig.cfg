SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
 Max = 2
 Keep = "judged"
INVARIANT Honest
INVARIANT Unbeaten
