SPECIFICATION Spec
CONSTANTS
  Moves = 4
  Temps = 2
INVARIANTS Rest Frame Still Schemes Pull
CHECK_DEADLOCK FALSE
