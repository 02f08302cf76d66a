SPECIFICATION Spec
CONSTANTS
  NIter = 2
  MaxOps = 6
  Emit = TRUE
INVARIANTS PrefixAlone EmitScript
CHECK_DEADLOCK FALSE
