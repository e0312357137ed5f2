SPECIFICATION Spec
INVARIANT Given
CHECK_DEADLOCK FALSE
