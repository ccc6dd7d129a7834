SPECIFICATION Spec
CONSTANTS
  Pick <- PickAll
  N = 2
  MaxOps = 6
  Emitting = FALSE
  KeyedBy = "closure"
  Saving = "inplace"
  KeepFailed = FALSE
INVARIANTS Transparent CheckSound CheckFollows
VIEW View
CHECK_DEADLOCK FALSE
