SPECIFICATION Spec
CONSTANTS MaxW = 6
          Emit = TRUE
INVARIANTS Rebuilds
CHECK_DEADLOCK FALSE
