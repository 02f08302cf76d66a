SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  QSize = 2
  MaxBlocks = 3
  MaxLen = 2
INVARIANTS Explained Result FailureReported
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
