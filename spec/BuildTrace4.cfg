SPECIFICATION Spec
CONSTANTS
  N = 4
CHECK_DEADLOCK FALSE
