SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Bytes = {0, 1, 128, 250}
  MaxWords = 2
  Shapes <- MoreShapes
INVARIANTS Codes DryStaysDry Programs Blocks Frames
