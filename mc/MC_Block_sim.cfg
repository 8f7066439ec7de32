SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Shapes <- LargeShapes
  Values <- WideValues
  Coarse <- SmallCoarse
  Encoders = {0, 1, 2}
  Qualities = {1, 300, 1024}
INVARIANTS Lockstep NeverDry Faithful AllBits Same
