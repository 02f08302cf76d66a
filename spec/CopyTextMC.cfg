SPECIFICATION Spec
CONSTANTS
  Max = 4
INVARIANTS RoundTrip OneCell Needed
CHECK_DEADLOCK FALSE
