SPECIFICATION Spec
CONSTANTS MaxW = 4
          Emit = TRUE
INVARIANTS OK
CHECK_DEADLOCK FALSE
