SPECIFICATION Spec
CONSTANTS
  N = 3
  Dim = 4
INVARIANTS TwoLaws ThreeLaws
CHECK_DEADLOCK FALSE
