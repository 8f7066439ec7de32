SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Limit = 8000
  Far = 1000000
INVARIANTS Inverse WideInverse Agree Monotone
