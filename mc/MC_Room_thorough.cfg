SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WB = 2
  MaxCap = 36
  Shapes <- MoreShapes
INVARIANTS TypeOK Exact Predicted MoreIsEnough SourceIntact Kept
