SPECIFICATION Spec
CONSTANTS Q = 12289
 Depth = 2
 Mod = 4
 Lim = 2
INVARIANTS Described SafeMeansSafe
CHECK_DEADLOCK FALSE
