SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 6
  Folds = {1, 2, 3, 5, 7}
  Classes = 2
  Variant = "ok"
INVARIANTS Once Even Complement
