SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NCh = 3
  MaxTransforms = 0
  MaxFactors = 0
  Factors = {1}
  Denoms = {1}
  Samples = {0, 1, 2, 63, 127, 128, 200, 254, 255}
  Start <- Presets
INVARIANTS RoundTrip SelfDelimiting CutRefused ChannelsChecked Flags Undone Whole
