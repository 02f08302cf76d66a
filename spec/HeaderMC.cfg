SPECIFICATION Spec
CONSTANTS MaxRounds = 2
INVARIANTS Unchanged NewOpens OptNeverMatters
CHECK_DEADLOCK FALSE
