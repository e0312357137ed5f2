SPECIFICATION Spec
INVARIANT Marks
CHECK_DEADLOCK FALSE
