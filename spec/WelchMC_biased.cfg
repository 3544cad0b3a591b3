SPECIFICATION Spec
CONSTANTS
 MaxVal = 1
 MaxLen = 3
 Pooled = FALSE
 Biased = TRUE
 TwoSided = FALSE
 Crossed = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Sides Chance Thinner Known2 Bounds Still Same Table Beaten
