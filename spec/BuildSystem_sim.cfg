SPECIFICATION GenSpec
CONSTANTS
  Pick <- PickOne
  N = 3
  MaxOps = 13
  Emitting = TRUE
  KeyedBy = "closure"
  Saving = "none"
  KeepFailed = FALSE
CHECK_DEADLOCK FALSE
