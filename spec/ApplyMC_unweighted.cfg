SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  TreeSet = {}
  DataSet = {}
  Kinds = {"cat", "num", "sum"}
  Variant = "unweighted"
  MaxTrees = 2
INVARIANT ByDefinition
