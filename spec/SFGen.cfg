SPECIFICATION GSpec
CONSTANT MaxItems = 4
CHECK_DEADLOCK FALSE
