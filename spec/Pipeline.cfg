SPECIFICATION Spec
CONSTANTS
  NMods = 4
  NWorkers = 2
  Cap = 2
INVARIANTS Ended Ordered Once
PROPERTIES Ends
CHECK_DEADLOCK FALSE
