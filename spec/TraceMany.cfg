SPECIFICATION TraceSpec
CONSTANTS
  Start <- ManyStart
  Conds <- ManyConds
  After <- ManyAfter
CHECK_DEADLOCK FALSE
