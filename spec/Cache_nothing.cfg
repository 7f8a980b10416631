SPECIFICATION Spec
CONSTANTS NT = 3
 Keeps = "nothing"
 Calls = 2
INVARIANTS Pure
CHECK_DEADLOCK FALSE
