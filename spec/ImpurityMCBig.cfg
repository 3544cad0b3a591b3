SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  CatNames = {"a", "b"}
  NumVals = {"0", "1", "5/2"}
  Forget = FALSE
INVARIANTS GiniAgrees SseAgrees SseIsSse NeverWorse
CHECK_DEADLOCK FALSE
