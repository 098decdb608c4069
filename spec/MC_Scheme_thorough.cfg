SPECIFICATION Spec
CONSTANTS
  MaxCalls = 5
  MaxSteps = 4
  Retry = "history"
INVARIANTS Poses Starts Covered Clock
PROPERTY Refines
CHECK_DEADLOCK FALSE
