CONSTANTS
  Blocks <- MCBlocks
  Checked = TRUE
SPECIFICATION Spec
INVARIANTS NoFalseSuccess NoFalseFailure
PROPERTY Ends
CHECK_DEADLOCK FALSE
