SPECIFICATION Spec
CONSTANTS
  MaxCalls = 3
  MaxSteps = 2
  Retry = "history"
INVARIANTS Poses Starts Covered Clock
PROPERTY Refines
CHECK_DEADLOCK FALSE
