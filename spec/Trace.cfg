SPECIFICATION TraceSpec
CONSTANTS
  Start <- MyStart
  Conds <- MyConds
  After <- MyAfter
CHECK_DEADLOCK FALSE
