SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2}
  MaxBlocks = 3
  Coords <- SmallCoords
  MaxPts = 2
INVARIANTS Exact CountExact
CHECK_DEADLOCK FALSE
