SPECIFICATION Spec
CONSTANTS
  Modes = 1
  MaxStep = 3
  MaxLen = 4
  Widen = TRUE
INVARIANT Right
PROPERTY Apart
CHECK_DEADLOCK FALSE
