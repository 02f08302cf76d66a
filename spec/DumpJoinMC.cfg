SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2}
  Vers = {1, 2}
  Pay = {1, 2}
INVARIANT Assembled
CHECK_DEADLOCK FALSE
