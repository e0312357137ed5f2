SPECIFICATION Spec
INVARIANT Kept
CHECK_DEADLOCK FALSE
