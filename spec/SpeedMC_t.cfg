SPECIFICATION Spec
CONSTANTS NCalls = 6
 Durations = {0, 1, 3, 5, 70000}
 Starts = {0, 7}
 FinalReading = TRUE
INVARIANTS Exact Unique
CHECK_DEADLOCK FALSE
