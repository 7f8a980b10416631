SPECIFICATION Spec
CONSTANTS NT = 2
 Keeps = "flag"
 Calls = 2
INVARIANTS PureFirst
CHECK_DEADLOCK FALSE
