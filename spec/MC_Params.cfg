INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANTS Export TimeStepWellDefined SearchWindowNotEmpty StartIsAdmissible RegularisedHasRefinement OutcomeAccepted
CHECK_DEADLOCK FALSE
