SPECIFICATION Spec
CONSTANTS Total = 12
  Batch = 2
  Queue = 1
  Buf = 1
  Block = 2
  Workers = 2
  Skew = 2
INVARIANT Bounded
PROPERTY AllWritten
CHECK_DEADLOCK FALSE
