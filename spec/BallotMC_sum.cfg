SPECIFICATION Spec
CONSTANTS
  Kind = "sum"
  NC = 2
  MaxVotes = 3
INVARIANTS Plurality Additive NoVoteNoTally TallyIsOk
CHECK_DEADLOCK FALSE
