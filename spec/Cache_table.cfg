SPECIFICATION Spec
CONSTANTS NT = 3
 Keeps = "table"
 Calls = 2
INVARIANTS Pure
CHECK_DEADLOCK FALSE
