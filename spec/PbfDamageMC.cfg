SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  QSize = 2
  MaxBlobs = 4
  Catches = TRUE
INVARIANTS Prefix SeqEnds Undamaged ParEnds
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
