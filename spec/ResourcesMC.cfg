SPECIFICATION Spec
CONSTANTS Handles = {h1, h2, h3}
  FileMax = 3
  ThreadMax = 3
  PerHandle = 2
INVARIANTS Bounded NothingLeft
PROPERTY Returns
CHECK_DEADLOCK FALSE
