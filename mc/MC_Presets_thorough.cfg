SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NCh = 3
  MaxTransforms = 0
  MaxFactors = 0
  Factors = {1}
  Denoms = {1}
  Samples = {0, 1, 2, 3, 15, 31, 32, 50, 63, 64, 77, 100, 127, 128, 129, 150, 177, 200, 222, 240, 253, 254, 255}
  Start <- Presets
INVARIANTS RoundTrip SelfDelimiting CutRefused ChannelsChecked Flags Undone Whole
