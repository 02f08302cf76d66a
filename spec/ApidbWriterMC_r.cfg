SPECIFICATION Spec
CONSTANTS
  Types = {"n", "w", "r"}
  Shape = "r"
  Faults = FALSE
  Emit = TRUE
CONSTRAINT NoFaults
INVARIANTS NoSilentLoss NeverWrong EmitHistory
CHECK_DEADLOCK FALSE
