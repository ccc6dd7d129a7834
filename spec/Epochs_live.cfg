CONSTANTS Procs = {1, 2, 3}  MaxOps = 4  CheckAndCancelTogether = TRUE  CancelReplaced = TRUE  Emitting = FALSE  Steps = 0
CONSTANT Pick <- PickAll
SPECIFICATION Spec
PROPERTY EverythingEnds
CHECK_DEADLOCK FALSE
