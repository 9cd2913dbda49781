SPECIFICATION Spec
CONSTANTS
  Runs = 4
  Automata = 3
  Bursts = 3
  Kinds = {"step", "run", "sim", "bad"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
