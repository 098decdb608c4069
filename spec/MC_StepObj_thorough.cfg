SPECIFICATION Spec
INVARIANT Holds
PROPERTY Local
CONSTANT MaxOps = 5
CHECK_DEADLOCK FALSE
