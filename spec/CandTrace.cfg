SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
CONSTANT Tie = "1e-7"
