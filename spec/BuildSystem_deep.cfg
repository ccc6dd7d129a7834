SPECIFICATION Spec
CONSTANTS
  Pick <- PickAll
  N = 2
  MaxOps = 10
  Emitting = FALSE
  KeyedBy = "closure"
  Saving = "none"
  KeepFailed = FALSE
INVARIANTS Transparent CheckSound CheckFollows
VIEW View
CHECK_DEADLOCK FALSE
