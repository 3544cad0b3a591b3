SPECIFICATION GSpec
CONSTANTS
  N = 5
  Values = {1, 2, 3}
  Short = 2
  Depth = 1
  Extra = 0
CHECK_DEADLOCK FALSE
