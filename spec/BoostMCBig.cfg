SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Rounds = 2
  Variant = "ok"
  WithCost = FALSE
INVARIANT Nonneg SumOne MissingZero Half Margins TreeWeight
