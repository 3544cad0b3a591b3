SPECIFICATION WalkSpec
CONSTANTS
  TreeSet <- AllTrees
  DataSet <- MCData
INVARIANTS TypeWalk OnePlace DropOnlyMissing ArriveAtRoute
PROPERTY Ends
CHECK_DEADLOCK FALSE
