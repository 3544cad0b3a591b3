SPECIFICATION Spec
CONSTANTS
  Tie = "0"
  MaxN = 4
  FeatVals = {"0", "1", "2", "7/2"}
  TargVals = {"0", "1", "5"}
  StopEarly = FALSE
  HighThreshold = TRUE
INVARIANTS Optimal Faithful
CHECK_DEADLOCK FALSE
