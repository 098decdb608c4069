SPECIFICATION Spec
CONSTANT MaxOps = 4
INVARIANT Covers
PROPERTIES Widen NothingErased OnlyOne
CHECK_DEADLOCK FALSE
