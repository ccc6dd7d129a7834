SPECIFICATION GenSpec
CONSTANTS
  Pick <- PickOne
  Seeds <- AllSeeds
  Every = 5
  NumModules = 2
  MaxLen = 14
  MaxDepth = 4
  Depth = 2
INVARIANTS Sound ScopesRight
CHECK_DEADLOCK FALSE
