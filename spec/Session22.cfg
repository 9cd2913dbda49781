SPECIFICATION Spec
CONSTANTS
  Runs = 2
  Automata = 2
  Bursts = 2
  Kinds = {"step", "run", "sim", "bad"}
INVARIANT Inv
CHECK_DEADLOCK FALSE
