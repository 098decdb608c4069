SPECIFICATION Spec
CONSTANT MaxOps = 5
INVARIANT Covers
PROPERTIES Widen NothingErased OnlyOne
CHECK_DEADLOCK FALSE
