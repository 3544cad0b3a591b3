SPECIFICATION GSpec
CONSTANT MaxItems = 5
CHECK_DEADLOCK FALSE
