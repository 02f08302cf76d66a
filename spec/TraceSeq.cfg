SPECIFICATION Spec
CONSTANTS BlockSize = 8000
POSTCONDITION Post
CHECK_DEADLOCK FALSE
