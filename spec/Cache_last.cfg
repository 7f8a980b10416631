SPECIFICATION Spec
CONSTANTS NT = 2
 Keeps = "last"
 Calls = 2
INVARIANTS Pure
CHECK_DEADLOCK FALSE
