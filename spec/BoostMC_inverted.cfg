SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Rounds = 3
  Variant = "inverted"
  WithCost = FALSE
INVARIANT Half
