SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Pictures <- SmallPics
  MaxD = 4
  Jump = 1
INVARIANTS Blockwise Points Ahead Complete TestMode Blind Reduced
