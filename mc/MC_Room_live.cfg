SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WB = 2
  MaxCap = 14
  Shapes <- SmallShapes
INVARIANTS TypeOK Exact Predicted MoreIsEnough SourceIntact Kept
PROPERTIES Finishes
