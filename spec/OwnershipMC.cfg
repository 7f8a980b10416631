SPECIFICATION Spec
CONSTANTS
  N = 8
  Order = "late"
INVARIANTS Safe Balanced
PROPERTY Ends
CHECK_DEADLOCK FALSE
