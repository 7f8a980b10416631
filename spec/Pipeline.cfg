SPECIFICATION Spec
CONSTANTS Q = 12289
 N = 16
 Psi = 1212
 Progs <- AllProgs
 Monos <- AllMonos
INVARIANTS InDomain Product Reduced
PROPERTY Terminates
CHECK_DEADLOCK FALSE
