SPECIFICATION Spec
CONSTANTS
  Lattice = 2
  Data = 2
INVARIANTS Nodes Smooth Affine Reproduces Derivative Located
CHECK_DEADLOCK FALSE
