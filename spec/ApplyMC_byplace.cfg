SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  TreeSet = {}
  DataSet = {}
  Kinds = {"num"}
  Variant = "byplace"
  MaxTrees = 2
INVARIANT ByDefinition
