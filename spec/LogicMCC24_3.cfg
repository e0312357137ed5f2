SPECIFICATION Spec
CONSTANTS MaxW = 3
          Emit = FALSE
INVARIANTS Good
CHECK_DEADLOCK FALSE
