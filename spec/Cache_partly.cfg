SPECIFICATION Spec
CONSTANTS NT = 1
 Keeps = "partly"
 Calls = 2
INVARIANTS Pure
CHECK_DEADLOCK FALSE
