SPECIFICATION Spec
INVARIANTS AgreesWithSets Symmetric Reflexive
CHECK_DEADLOCK FALSE
