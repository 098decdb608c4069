SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Where = {1, 2}
INVARIANTS Exists FromTheEnd Common Widen Fits Tight
PROPERTIES Harmless
CHECK_DEADLOCK FALSE
