SPECIFICATION Spec
CONSTANT MaxSize = 4
INVARIANTS Triangulation Tiling Partition VerticesAreEndpoints CornersOnly BoundaryIsClosedCurve
CHECK_DEADLOCK FALSE
