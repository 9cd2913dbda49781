SPECIFICATION Spec
CONSTANTS
  MaxLen = 0
  Harm = TRUE
  Few = TRUE
  Lucky = FALSE
INVARIANTS Same Form
CHECK_DEADLOCK FALSE
