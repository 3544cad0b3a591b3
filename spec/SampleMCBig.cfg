SPECIFICATION Spec
CONSTANTS MaxLen = 5 Naive = FALSE Short = FALSE
INVARIANTS Perm Aside Sizes NoRoom Fair Total
CHECK_DEADLOCK FALSE
