SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  CatNames = {"a", "b"}
  NumVals = {"0", "5/2"}
  Forget = FALSE
INVARIANTS GiniAgrees SseAgrees SseIsSse NeverWorse
CHECK_DEADLOCK FALSE
