SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 20
  MaxSize = 4
  MaxList = 4
  MaxEdge = 5
INVARIANTS OverCover OverNeighbours DoubleSame VarCover BlocksCover BlocksOrder BlocksApart BlocksSafe
