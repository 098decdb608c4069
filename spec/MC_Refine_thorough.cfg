SPECIFICATION Spec
CONSTANTS
  Sizes <- MoreSizes
  Factors = {1, 2, 3, 4}
INVARIANTS NumberedOnce PartsAreFine SameAsMeshingFiner ContainedInCoarse EdgeOnAtMostOneCoarseEdge
PROPERTY NeverRenumbered
CHECK_DEADLOCK FALSE
