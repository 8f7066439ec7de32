SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NCh = 2
  MaxTransforms = 2
  MaxFactors = 2
  Factors <- SmallFactors
  Denoms = {1, 4, 5}
  Samples = {0, 77, 255}
INVARIANTS RoundTrip SelfDelimiting CutRefused ChannelsChecked Flags Undone Whole
CONSTANT Start <- Scratch
