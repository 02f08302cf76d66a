SPECIFICATION Spec
CONSTANTS
  NT = 2
  NA = 2
  MaxOps = 6
  Emit = TRUE
INVARIANTS Conserved EmitScript
CHECK_DEADLOCK FALSE
