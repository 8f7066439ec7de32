SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxCh = 4
  MaxPixels = 3
  Behind = 3
INVARIANTS Placed Inverse Agree Clamped
