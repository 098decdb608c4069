SPECIFICATION Spec
CONSTANTS
  Moves = 12
  Temps = 5
INVARIANTS Rest Frame Still Schemes Pull
CHECK_DEADLOCK FALSE
