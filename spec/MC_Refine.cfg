SPECIFICATION Spec
CONSTANTS
  Sizes <- SmallSizes
  Factors = {1, 2, 3}
INVARIANTS NumberedOnce PartsAreFine SameAsMeshingFiner ContainedInCoarse EdgeOnAtMostOneCoarseEdge
PROPERTY NeverRenumbered
CHECK_DEADLOCK FALSE
