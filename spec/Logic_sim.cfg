SPECIFICATION GenSpec
CONSTANTS
  Pick <- PickOne
  Seeds <- AllSeeds
  NumDecls = 3
  NumAxioms = 3
  NumGoals = 10
  MaxD = 3
  Depth = 3
INVARIANTS AxiomsTrue ClosedAll InstancesTrue Opposites
CHECK_DEADLOCK FALSE
