SPECIFICATION Spec
CONSTANTS MaxLen = 4 Naive = FALSE Short = FALSE
INVARIANTS Perm Aside Sizes NoRoom Fair Total
CHECK_DEADLOCK FALSE
