SPECIFICATION Obedient
CHECK_DEADLOCK FALSE
CONSTANTS
  Pictures <- SmallPics
  MaxD = 4
  Jump = 1
INVARIANTS Ahead
PROPERTIES Satisfied
