CONSTANTS
  Changes = 0
  From = {}
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
