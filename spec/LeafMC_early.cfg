SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2}
  Files = 3
  Variant = "early"
INVARIANT Exact

