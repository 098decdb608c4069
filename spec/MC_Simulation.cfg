SPECIFICATION Spec
CONSTANTS
  MaxCalls = 2
  MaxSteps = 3
INVARIANTS NoTrace OnlyStepsTakeTime Counted Chain Retry
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
