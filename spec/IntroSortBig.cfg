SPECIFICATION Spec
CONSTANTS
  N = 7
  Values = {1, 2, 3, 4}
  Short = 2
  Depth = 1
  Extra = 1
INVARIANTS Pairs Permutes Beyond Sorted PivotInv

CHECK_DEADLOCK FALSE
