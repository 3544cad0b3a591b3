SPECIFICATION Spec
CONSTANTS
 MaxVal = 2
 MaxLen = 2
 Pooled = FALSE
 Biased = FALSE
 TwoSided = FALSE
 Crossed = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Sides Chance Thinner Known2 Bounds Still Same Table Beaten
