SPECIFICATION Spec
INVARIANT SubCounts
CHECK_DEADLOCK FALSE
