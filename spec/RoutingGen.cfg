SPECIFICATION GSpec
CONSTANTS
  TreeSet <- AllTrees
  DataSet <- MCData
CHECK_DEADLOCK FALSE
