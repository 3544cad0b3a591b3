SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Perm Front Back Between
PROPERTY Terminates
CHECK_DEADLOCK FALSE
