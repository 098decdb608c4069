SPECIFICATION Spec
INVARIANT Holds
PROPERTY Local
CONSTANT MaxOps = 4
CHECK_DEADLOCK FALSE
