SPECIFICATION Spec
CONSTANTS
  Blocks = 7
  Workers = 4
  Emit = TRUE
INVARIANTS FewHeld EmitOrder
CHECK_DEADLOCK FALSE
