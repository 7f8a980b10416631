SPECIFICATION Spec
CONSTANTS
  N = 8
  Order = "keep"
INVARIANTS Safe Balanced
CHECK_DEADLOCK FALSE
