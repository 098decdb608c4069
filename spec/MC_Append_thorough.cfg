SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS KeptOnce NothingLost Export
CHECK_DEADLOCK FALSE
