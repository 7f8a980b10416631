SPECIFICATION Spec
CONSTANTS Q = 12289
 N = 256
 Psi = 1002
 Progs <- AllProgs
 Monos <- FewMonos
INVARIANTS InDomain Product Reduced
PROPERTY Terminates
CHECK_DEADLOCK FALSE
