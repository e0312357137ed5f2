SPECIFICATION Spec
INVARIANTS Domain0 Guarantees
CHECK_DEADLOCK FALSE
