CONSTANTS
  Changes = 2
  From = {1, 2, 3, 4, 5, 6}
SPECIFICATION Spec
INVARIANT TypeInv
CHECK_DEADLOCK FALSE
