SPECIFICATION Spec
CONSTANTS
  Blocks = 6
  Workers = 4
  Emit = TRUE
INVARIANTS FewHeld EmitOrder
CHECK_DEADLOCK FALSE
