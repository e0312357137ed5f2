SPECIFICATION Spec
INVARIANT SpecConserved
CHECK_DEADLOCK FALSE
