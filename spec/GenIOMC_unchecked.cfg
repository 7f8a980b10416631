CONSTANTS
  Blocks <- MCBlocks
  Checked = FALSE
SPECIFICATION Spec
INVARIANTS NoFalseSuccess NoFalseFailure
CHECK_DEADLOCK FALSE
