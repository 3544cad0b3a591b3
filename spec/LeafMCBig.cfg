SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads = {1, 2, 3, 4}
  Files = 3
  Variant = "ok"
INVARIANT Exact
PROPERTY Ends
