SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  CatNames = {"a", "b"}
  NumVals = {"0", "5/2"}
  Forget = TRUE
INVARIANTS GiniAgrees SseAgrees SseIsSse NeverWorse
CHECK_DEADLOCK FALSE
