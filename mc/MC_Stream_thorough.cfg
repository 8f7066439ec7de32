SPECIFICATION Spec
CONSTANTS
  Items <- LargeItems
  Patience = 4
INVARIANTS Allowed Prefix Outcome
PROPERTIES NothingAfter Ends
CHECK_DEADLOCK FALSE
