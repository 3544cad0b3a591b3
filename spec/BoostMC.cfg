SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Rounds = 3
  Variant = "ok"
  WithCost = FALSE
INVARIANT Nonneg SumOne MissingZero Half Margins TreeWeight
