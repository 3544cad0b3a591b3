SPECIFICATION Spec
CONSTANTS
  N = 6
  Values = {1, 2, 3}
  Short = 2
  Depth = 1
  Extra = 1
INVARIANTS Pairs Permutes Beyond Sorted PivotInv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
