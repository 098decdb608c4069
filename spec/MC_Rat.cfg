SPECIFICATION Spec
CONSTANTS
  N = 7
  D = 5
INVARIANTS Field Functions Strings
CHECK_DEADLOCK FALSE
