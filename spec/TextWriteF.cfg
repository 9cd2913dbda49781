SPECIFICATION Spec
CONSTANTS
  MaxLen = 1
  Harm = FALSE
  Few = TRUE
  Lucky = FALSE
INVARIANTS Same Form
CHECK_DEADLOCK FALSE
