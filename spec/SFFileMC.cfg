SPECIFICATION Spec
CONSTANT MaxLines = 4
INVARIANTS AllTreesDelivered AllForestsDelivered Reported PrefixT PrefixF
PROPERTY Stops
CHECK_DEADLOCK FALSE
