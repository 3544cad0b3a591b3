SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 4
  Folds = {2, 3}
  Classes = 1
  Variant = "leak"
INVARIANT Complement
