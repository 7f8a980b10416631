SPECIFICATION Spec
CONSTANTS MaxLen = 7
 Values = {0, 1, 2}
 Small = 2
 SmallerFirst = TRUE
INVARIANTS Depth InBounds Permutes Result
PROPERTY Terminates
CHECK_DEADLOCK FALSE
