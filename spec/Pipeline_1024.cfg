SPECIFICATION Spec
CONSTANTS Q = 12289
 N = 1024
 Psi = 1014
 Progs <- AllProgs
 Monos <- FewMonos
INVARIANTS InDomain Product Reduced
PROPERTY Terminates
CHECK_DEADLOCK FALSE
