SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NumOf <- NumHere
  NumVals = {"0", "3/2", "-10"}
  CatVals <- MoreVals
  Variant = "ok"
INVARIANT RoundTrip
INVARIANT LineByLine
