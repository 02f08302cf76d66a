SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Permutation Unique
PROPERTY Ends
CHECK_DEADLOCK FALSE
