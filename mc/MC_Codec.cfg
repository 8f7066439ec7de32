SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Params <- SmallParams
  Samples <- SmallSamples
INVARIANTS RoundTrip Exact Format Flat1 InSamples
