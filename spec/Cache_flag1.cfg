SPECIFICATION Spec
CONSTANTS NT = 1
 Keeps = "flag"
 Calls = 3
INVARIANTS Pure
CHECK_DEADLOCK FALSE
