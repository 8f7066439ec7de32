SPECIFICATION Spec
CONSTANTS
  Items <- SmallItems
  Patience = 2
INVARIANTS Allowed Prefix Outcome
PROPERTIES NothingAfter Ends
CHECK_DEADLOCK FALSE
