SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Rounds = 3
  Variant = "missing"
  WithCost = FALSE
INVARIANT MissingZero
