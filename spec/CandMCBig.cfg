SPECIFICATION Spec
CONSTANTS N = 4 MaxDepth = 2 Order = "depth" Guarded = TRUE Restore = TRUE
INVARIANTS Permutation Once NotKnown Accounted Enough InRange
CHECK_DEADLOCK FALSE
