SPECIFICATION Spec
CONSTANTS
  N = 16
  D = 9
INVARIANTS Field Functions Strings
CHECK_DEADLOCK FALSE
