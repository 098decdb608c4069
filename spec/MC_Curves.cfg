SPECIFICATION Spec
CONSTANTS
  MaxPoints = 4
  MaxInterior = 3
INVARIANTS ContainsTheSides Counted Evenly FromSideToSide Inside Nested Mirrored
CHECK_DEADLOCK FALSE
