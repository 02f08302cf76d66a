SPECIFICATION Spec
CONSTANTS
  MaxStages = 4
  N = 3
INVARIANTS Stored Close Kept Settled Untouched OneUser
CHECK_DEADLOCK FALSE
