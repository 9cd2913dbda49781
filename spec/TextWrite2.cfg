SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Harm = FALSE
  Few = TRUE
  Lucky = FALSE
INVARIANTS Same Form
CHECK_DEADLOCK FALSE
