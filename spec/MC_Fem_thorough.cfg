SPECIFICATION Spec
CONSTANTS
  Lattice = 3
  Data = 3
INVARIANTS Nodes Smooth Affine Reproduces Derivative Located
CHECK_DEADLOCK FALSE
