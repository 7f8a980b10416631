SPECIFICATION Spec
CONSTANTS
  N = 8
  Order = "early"
INVARIANTS Safe Balanced
CHECK_DEADLOCK FALSE
