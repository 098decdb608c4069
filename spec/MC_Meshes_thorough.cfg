SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxK = 4
INVARIANT Equivalence
PROPERTY Local
CHECK_DEADLOCK FALSE
