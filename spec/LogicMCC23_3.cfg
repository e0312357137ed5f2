SPECIFICATION Spec
CONSTANTS MaxW = 3
          Emit = FALSE
INVARIANTS ArgLaw
CHECK_DEADLOCK FALSE
