SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Pots = {0, 2, 4}
  Numbers = {0, 1, 12, 191}
  Widths = {5, 30}
  MaxItems = 3
INVARIANTS RightValues RightPosition FailsWhenDry WellFormed
