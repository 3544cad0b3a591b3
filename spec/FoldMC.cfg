SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 5
  Folds = {1, 2, 3, 4}
  Classes = 2
  Variant = "ok"
INVARIANTS Once Even Complement
