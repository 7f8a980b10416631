SPECIFICATION Spec
CONSTANTS Q = 17
 NT = 3
 N = 4
 Psi = 2
 Operands <- Few
 Own = TRUE
INVARIANT Products
PROPERTIES Isolated Finish
CHECK_DEADLOCK FALSE
