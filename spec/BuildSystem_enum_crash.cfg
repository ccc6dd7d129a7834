SPECIFICATION EnumSpec
CONSTANTS
  Pick <- PickAll
  N = 2
  MaxOps = 6
  Emitting = FALSE
  KeyedBy = "closure"
  Saving = "none"
  KeepFailed = FALSE
CHECK_DEADLOCK FALSE
