SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxEdge = 14
  MaxStep = 8
  MaxLine = 40
INVARIANTS ContextKnown ContextExact CellsExact PassIndependent EachOnce
