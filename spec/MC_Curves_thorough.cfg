SPECIFICATION Spec
CONSTANTS
  MaxPoints = 8
  MaxInterior = 7
INVARIANTS ContainsTheSides Counted Evenly FromSideToSide Inside Nested Mirrored
CHECK_DEADLOCK FALSE
