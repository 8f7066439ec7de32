SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NCh = 2
  MaxTransforms = 2
  MaxFactors = 1
  Factors <- SmallFactors
  Denoms = {1, 2, 3, 8}
  Samples = {0, 1, 100, 255}
INVARIANTS RoundTrip SelfDelimiting CutRefused ChannelsChecked Flags Undone Whole
CONSTANT Start <- Scratch
