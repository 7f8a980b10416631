SPECIFICATION Spec
CONSTANTS Q = 17
 N = 4
 Psi = 2
 Mode = "all"
INVARIANTS TypeOK Correct Stage Inverts
PROPERTY Terminates
CHECK_DEADLOCK FALSE
