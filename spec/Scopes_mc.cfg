SPECIFICATION Spec
CONSTANTS
  Pick <- PickAll
  Seeds = {11}
  Every = 1
  NumModules = 1
  MaxLen = 2
  MaxDepth = 3
  Depth = 1
INVARIANTS Sound ScopesRight Nested
CHECK_DEADLOCK FALSE
