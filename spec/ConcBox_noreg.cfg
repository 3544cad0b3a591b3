SPECIFICATION Spec
CONSTANTS
  Threads = {"t1", "t2"}
  Cases = {1, 2}
  Labels = {"a", "b"}
  NOps = 1
  RegLock = FALSE
  CaseLock = TRUE
INVARIANTS RegExclusive

