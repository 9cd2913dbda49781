SPECIFICATION Spec
CONSTANTS
  Modes = 2
  MaxStep = 3
  MaxLen = 3
  Widen = FALSE
INVARIANT Right
PROPERTY Apart
CHECK_DEADLOCK FALSE
