SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Own = FALSE
  All = FALSE
  Walkers = 16
