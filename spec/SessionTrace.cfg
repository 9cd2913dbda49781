SPECIFICATION TSpec
CONSTANTS
  Runs = 0
  Automata = 4
  Bursts = 9
  Kinds = {}
INVARIANT TInv
CHECK_DEADLOCK FALSE
