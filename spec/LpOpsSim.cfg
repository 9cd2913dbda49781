SPECIFICATION Spec
CONSTANTS
  Slots = 3
  MaxLen = 10
INVARIANT Inv
CHECK_DEADLOCK FALSE
