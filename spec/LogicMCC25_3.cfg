SPECIFICATION Spec
CONSTANTS MaxW = 3
          Emit = FALSE
INVARIANTS Good NegLaw
CHECK_DEADLOCK FALSE
