SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2"}
  Cases = {1, 2}
  Labels = {"a", "b"}
  NOps = 2
  RegLock = TRUE
  CaseLock = TRUE
INVARIANTS NothingLost TableOk RegExclusive CaseExclusive
PROPERTY Ends
