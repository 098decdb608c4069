SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Where = {1, 2}
INVARIANTS Exists FromTheEnd Common Widen Fits Tight
PROPERTIES Harmless
CHECK_DEADLOCK FALSE
