SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NumOf <- NumHere
  NumVals = {"0", "3/2"}
  CatVals <- OddVals
  Variant = "rawquotes"
INVARIANT RoundTrip
