SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Rounds = 2
  Types = {"grad", "gradclass"}
  Vals = {"0", "3"}
  PredVals = {"1", "-1/2"}
  Variant = "bagonly"
INVARIANT Keeps
