SPECIFICATION Spec
CONSTANTS
  Modes = 1
  MaxStep = 4
  MaxLen = 4
  Widen = FALSE
INVARIANT Right
PROPERTY Apart
CHECK_DEADLOCK FALSE
