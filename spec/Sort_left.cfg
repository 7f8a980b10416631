SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Values = {0, 1, 2}
 Small = 2
 SmallerFirst = FALSE
INVARIANTS Depth
CHECK_DEADLOCK FALSE
