SPECIFICATION Spec
CONSTANTS
  Pick <- PickAll
  Seeds = {11, 222}
  NumDecls = 1
  NumAxioms = 1
  NumGoals = 1
  MaxD = 2
  Depth = 1
INVARIANTS AxiomsTrue ClosedAll InstancesTrue Opposites
CHECK_DEADLOCK FALSE
