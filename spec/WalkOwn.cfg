SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Own = TRUE
  All = FALSE
  Walkers = 4
