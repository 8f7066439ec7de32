SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxCh = 6
  MaxPixels = 5
  Behind = 5
INVARIANTS Placed Inverse Agree Clamped
