SPECIFICATION Spec
CONSTANTS
  N = 4
  Unit = 2
  Temps = 12
INVARIANTS Wells FrameIndifferent Derivatives Temperature Conduction Dissipates
CHECK_DEADLOCK FALSE
