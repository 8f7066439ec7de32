SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Sizes <- MoreSizes
  Values <- MoreValues
  Extremes <- Big
INVARIANTS Restored Whole DcKept Flatness InRange
