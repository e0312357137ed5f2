SPECIFICATION Spec
CONSTANTS MaxW = 5
          Emit = TRUE
INVARIANTS Rebuilds
CHECK_DEADLOCK FALSE
