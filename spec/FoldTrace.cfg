SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANT NumOf <- TraceNum
