CONSTANTS Procs = {1, 2, 3, 4}  MaxOps = 60  CheckAndCancelTogether = TRUE  CancelReplaced = TRUE  Emitting = TRUE  Steps = 40
CONSTANT Pick <- PickOne
SPECIFICATION GenSpec
INVARIANTS Exclusive ViewIsSnapshot StoppedForAReason StoppedWhenChanged CountIsEpoch
CHECK_DEADLOCK FALSE
