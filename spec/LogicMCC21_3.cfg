SPECIFICATION Spec
CONSTANTS MaxW = 3
          Emit = FALSE
INVARIANTS Once Kept0
CHECK_DEADLOCK FALSE
