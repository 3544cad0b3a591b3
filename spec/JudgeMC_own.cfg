SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 2
 Max = 3
 Keep = "own"
INVARIANT Honest
INVARIANT Unbeaten
