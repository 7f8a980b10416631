SPECIFICATION Spec
CONSTANT Q = 12289
INVARIANT Conforms
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
