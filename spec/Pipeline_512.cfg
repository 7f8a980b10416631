SPECIFICATION Spec
CONSTANTS Q = 12289
 N = 512
 Psi = 1003
 Progs <- AllProgs
 Monos <- FewMonos
INVARIANTS InDomain Product Reduced
PROPERTY Terminates
CHECK_DEADLOCK FALSE
