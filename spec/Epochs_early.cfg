CONSTANTS Procs = {1, 2, 3}  MaxOps = 5  CheckAndCancelTogether = TRUE  CancelReplaced = FALSE  Emitting = FALSE  Steps = 0
CONSTANT Pick <- PickAll
SPECIFICATION Spec
INVARIANTS Exclusive ViewIsSnapshot StoppedForAReason StoppedWhenChanged CountIsEpoch
CHECK_DEADLOCK FALSE
