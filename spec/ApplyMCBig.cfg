SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  TreeSet = {}
  DataSet = {}
  Kinds = {"cat", "num", "sum"}
  Variant = "ok"
  MaxTrees = 3
INVARIANT ByDefinition
