SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Rounds = 2
  Variant = "nonorm"
  WithCost = FALSE
INVARIANT SumOne
