SPECIFICATION Spec
CONSTANTS
  Pick <- PickAll
  N = 2
  MaxOps = 6
  Emitting = FALSE
  KeyedBy = "closure"
  Saving = "invalidate"
  KeepFailed = FALSE
INVARIANTS Transparent CheckSound CheckFollows
VIEW View
CHECK_DEADLOCK FALSE
