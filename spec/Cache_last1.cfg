SPECIFICATION Spec
CONSTANTS NT = 1
 Keeps = "last"
 Calls = 4
INVARIANTS Pure
CHECK_DEADLOCK FALSE
