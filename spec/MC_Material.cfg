SPECIFICATION Spec
CONSTANTS
  N = 3
  Unit = 2
  Temps = 3
INVARIANTS Wells FrameIndifferent Derivatives Temperature Conduction Dissipates
CHECK_DEADLOCK FALSE
