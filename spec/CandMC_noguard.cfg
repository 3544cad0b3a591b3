SPECIFICATION Spec
CONSTANTS N = 3 MaxDepth = 1 Order = "depth" Guarded = FALSE Restore = TRUE
INVARIANTS Permutation Once NotKnown Accounted Enough InRange
CHECK_DEADLOCK FALSE
