SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Limit = 3000
  Dense = FALSE
INVARIANTS Bounded Signs Zero Monotone Stable Lossless Refines Levels Reduced
