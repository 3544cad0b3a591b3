SPECIFICATION TraceSpec
CONSTANTS
  TreeSet = {}
  DataSet = {}
CHECK_DEADLOCK FALSE
