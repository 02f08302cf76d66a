SPECIFICATION Spec
CONSTANTS
  LastYear = 1702
INVARIANTS Counted Reads
CHECK_DEADLOCK FALSE
