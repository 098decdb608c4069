SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS KeptOnce NothingLost Export
CHECK_DEADLOCK FALSE
