SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Harm = FALSE
  Few = FALSE
  Lucky = TRUE
INVARIANTS Same Form
CHECK_DEADLOCK FALSE
