SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxEdge = 9
  MaxStep = 4
  MaxLine = 20
INVARIANTS ContextKnown ContextExact CellsExact PassIndependent EachOnce
