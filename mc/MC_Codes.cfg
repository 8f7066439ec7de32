SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Pots = {0, 1, 4}
  Numbers = {0, 1, 12, 47, 1000}
  Widths = {1, 7, 16, 30}
  MaxItems = 2
INVARIANTS RightValues RightPosition FailsWhenDry WellFormed
