SPECIFICATION Spec
CONSTANTS
  MaxElems = 3
  Kinds = {"n", "w", "r"}
INVARIANTS RoundTrip BlockSound ReservedEntry NoZeroKey
CHECK_DEADLOCK FALSE
