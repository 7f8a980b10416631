SPECIFICATION Spec
CONSTANTS Q = 12289
 Depth = 3
 Mod = 4
 Lim = 1
INVARIANTS Described SafeMeansSafe
CHECK_DEADLOCK FALSE
