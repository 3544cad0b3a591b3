SPECIFICATION Spec
CONSTANT MaxLen = 9
INVARIANTS Perm Front Back Between
PROPERTY Terminates
CHECK_DEADLOCK FALSE
