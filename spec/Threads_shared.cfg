SPECIFICATION Spec
CONSTANTS Q = 17
 NT = 2
 N = 4
 Psi = 2
 Operands <- Few
 Own = FALSE
INVARIANT Products

CHECK_DEADLOCK FALSE
