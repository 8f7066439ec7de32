SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Params <- MoreParams
  Samples <- SmallSamples
INVARIANTS RoundTrip Exact Format Flat1 InSamples
