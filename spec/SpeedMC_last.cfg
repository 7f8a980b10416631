SPECIFICATION Spec
CONSTANTS NCalls = 5
 Durations = {0, 1, 3, 70000}
 Starts = {0, 7}
 FinalReading = FALSE
INVARIANTS Exact
CHECK_DEADLOCK FALSE
