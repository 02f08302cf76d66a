SPECIFICATION Spec
CONSTANTS
  NIter = 3
  MaxOps = 6
  Emit = FALSE
INVARIANTS PrefixAlone EmitScript
CHECK_DEADLOCK FALSE
