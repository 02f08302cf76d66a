SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  Vers = {1, 2}
  Pay = {1}
INVARIANTS Whole NeverCut AsWritten
CHECK_DEADLOCK FALSE
