SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Bytes = {0, 1, 255}
  MaxWords = 1
  Shapes <- SmallShapes
INVARIANTS Codes DryStaysDry Programs Blocks Frames
