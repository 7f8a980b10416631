SPECIFICATION Spec
CONSTANTS Q = 13
 N = 4
 M = 4
 Top = 8
 InItvs <- MCIn3
 TwItvs <- MCTw3
INVARIANTS Described NoSurprise
CHECK_DEADLOCK FALSE
