SPECIFICATION GSpec
CONSTANT MaxLen = 5
CHECK_DEADLOCK FALSE
