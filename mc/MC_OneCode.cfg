SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Limit = 512
  Far = 60000
INVARIANTS Inverse WideInverse Agree Monotone
