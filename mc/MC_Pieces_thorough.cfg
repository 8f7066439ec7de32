SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 60
  MaxSize = 5
  MaxList = 6
  MaxEdge = 9
INVARIANTS OverCover OverNeighbours DoubleSame VarCover BlocksCover BlocksOrder BlocksApart BlocksSafe
