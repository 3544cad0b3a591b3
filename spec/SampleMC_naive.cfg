SPECIFICATION Spec
CONSTANTS MaxLen = 3 Naive = TRUE Short = FALSE
INVARIANTS Fair
CHECK_DEADLOCK FALSE
