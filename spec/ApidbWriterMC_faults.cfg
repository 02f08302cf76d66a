SPECIFICATION Spec
CONSTANTS
  Types = {"n", "w", "r"}
  Shape = "faults"
  Faults = TRUE
  Emit = FALSE
INVARIANTS NoSilentLoss NeverWrong
CHECK_DEADLOCK FALSE
