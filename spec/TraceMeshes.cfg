SPECIFICATION TraceSpec
CONSTANTS
  Start <- MeshesStart
  Conds <- MeshesConds
  After <- MeshesAfter
CHECK_DEADLOCK FALSE
