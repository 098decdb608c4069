SPECIFICATION Spec
CONSTANTS
  N = 2
  Dim = 3
INVARIANTS TwoLaws ThreeLaws
CHECK_DEADLOCK FALSE
