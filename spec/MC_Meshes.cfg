SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxK = 4
INVARIANT Equivalence
PROPERTY Local
CHECK_DEADLOCK FALSE
