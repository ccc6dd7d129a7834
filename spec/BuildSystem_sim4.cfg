SPECIFICATION GenSpec
CONSTANTS
  Pick <- PickOne
  N = 4
  MaxOps = 12
  Emitting = TRUE
  KeyedBy = "closure"
  Saving = "none"
  KeepFailed = FALSE
CHECK_DEADLOCK FALSE
