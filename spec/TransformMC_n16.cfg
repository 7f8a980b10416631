SPECIFICATION Spec
CONSTANTS Q = 12289
 N = 16
 Psi = 1212
 Mode = "basis"
INVARIANTS TypeOK Correct Stage Column Inverts
PROPERTY Terminates
CHECK_DEADLOCK FALSE
