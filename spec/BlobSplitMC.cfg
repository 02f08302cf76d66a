SPECIFICATION Spec
CONSTANTS
  Limit = 8
  Overhead = 1
  MaxLen = 6
  Sizes = {0, 1, 3, 6, 7}
INVARIANTS AllFit Complete NoneLost Judged NotCutInVain
PROPERTIES Ends
CHECK_DEADLOCK FALSE
