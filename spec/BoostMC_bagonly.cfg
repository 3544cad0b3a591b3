SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Rounds = 3
  Variant = "bagonly"
  WithCost = FALSE
INVARIANT Half
