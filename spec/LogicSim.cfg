SPECIFICATION Spec
CONSTANTS MaxW = 7
          Emit = TRUE
INVARIANTS Good
CHECK_DEADLOCK FALSE
