CONSTANTS N = 3
 Windows = 3
 Pick <- PickOne
SPECIFICATION Spec
INVARIANT Sane
CHECK_DEADLOCK FALSE
