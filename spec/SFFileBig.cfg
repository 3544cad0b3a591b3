SPECIFICATION Spec
CONSTANT MaxLines = 5
INVARIANTS AllTreesDelivered AllForestsDelivered Reported PrefixT PrefixF
PROPERTY Stops
CHECK_DEADLOCK FALSE
