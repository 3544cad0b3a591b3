SPECIFICATION Spec
CONSTANTS
 MaxVal = 1
 MaxLen = 3
 Pooled = TRUE
 Biased = FALSE
 TwoSided = FALSE
 Crossed = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Sides Chance Thinner Known2 Bounds Still Same Table Beaten
