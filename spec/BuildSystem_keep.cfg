SPECIFICATION Spec
CONSTANTS
  Pick <- PickAll
  N = 2
  MaxOps = 7
  Emitting = FALSE
  KeyedBy = "closure"
  Saving = "none"
  KeepFailed = TRUE
INVARIANTS Transparent CheckSound CheckFollows
VIEW View
CHECK_DEADLOCK FALSE
