SPECIFICATION Spec
CONSTANTS
  MaxFrames = 3
  LenBytes = 2
  Sizes = {1, 3}
INVARIANTS CleanEndOnlyAtBoundary FailOnlyInside Prefix
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
