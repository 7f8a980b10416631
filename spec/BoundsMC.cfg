SPECIFICATION Spec
CONSTANTS Q = 25
 M = 8
 R = 20
 WR = 12
INVARIANTS ClosedOK WindowOK LeastOK Shift1
CHECK_DEADLOCK FALSE
