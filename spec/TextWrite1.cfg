SPECIFICATION Spec
CONSTANTS
  MaxLen = 1
  Harm = FALSE
  Few = FALSE
  Lucky = FALSE
INVARIANTS Same Form
CHECK_DEADLOCK FALSE
