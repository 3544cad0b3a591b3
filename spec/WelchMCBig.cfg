SPECIFICATION Spec
CONSTANTS
 MaxVal = 2
 MaxLen = 4
 Pooled = FALSE
 Biased = FALSE
 TwoSided = FALSE
 Crossed = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Sides Chance Thinner Known2 Bounds Still Same Table Beaten
