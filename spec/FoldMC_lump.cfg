SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 5
  Folds = {2, 3}
  Classes = 1
  Variant = "lump"
INVARIANT Even
