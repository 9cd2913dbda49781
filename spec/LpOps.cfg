SPECIFICATION Spec
CONSTANTS
  Slots = 2
  MaxLen = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
