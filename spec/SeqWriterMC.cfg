SPECIFICATION Spec
CONSTANTS
  BlockSize = 2
  MaxLen = 6
  MaxId = 1
INVARIANTS NothingLost BlocksValid ClosedComplete MissingAtMostABlock PrefixOnDisk NeverLosesSure
PROPERTIES Refines
CHECK_DEADLOCK FALSE
