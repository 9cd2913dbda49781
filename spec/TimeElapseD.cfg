SPECIFICATION Spec
CONSTANTS
  Modes = 3
  MaxStep = 3
  MaxLen = 3
  Widen = FALSE
INVARIANT Right
PROPERTY Apart
CHECK_DEADLOCK FALSE
