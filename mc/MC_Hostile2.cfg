SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Bytes = {0, 1}
  MaxWords = 3
  Shapes <- SmallShapes
INVARIANTS Codes DryStaysDry Programs Blocks Frames
