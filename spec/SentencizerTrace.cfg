SPECIFICATION Spec
INVARIANT SpecOK
CHECK_DEADLOCK FALSE
