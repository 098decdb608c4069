SPECIFICATION Spec
CONSTANT MaxSize = 2
INVARIANTS Triangulation Tiling Partition VerticesAreEndpoints CornersOnly BoundaryIsClosedCurve
CHECK_DEADLOCK FALSE
