SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Sizes <- SmallSizes
  Values <- SmallValues
  Extremes <- Big
INVARIANTS Restored Whole DcKept Flatness InRange
