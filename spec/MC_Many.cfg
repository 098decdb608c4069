SPECIFICATION Spec
CONSTANTS
  Sims = 3
  MaxCalls = 4
  MaxSteps = 2
  MaxFaults = 1
  MaxDepth = 3
INVARIANTS Independent OwnAnswers Proper
PROPERTY OthersKeep
CHECK_DEADLOCK FALSE
