SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Limit = 16383
  Dense = TRUE
INVARIANTS Bounded Signs Zero Monotone Stable Lossless Refines Levels Reduced
