SPECIFICATION Spec
CONSTANTS MaxLen = 3 Naive = FALSE Short = TRUE
INVARIANTS Perm Aside Sizes NoRoom Fair Total
CHECK_DEADLOCK FALSE
