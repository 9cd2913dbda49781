SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Harm = TRUE
  Few = FALSE
  Lucky = TRUE
INVARIANTS Same Form
CHECK_DEADLOCK FALSE
