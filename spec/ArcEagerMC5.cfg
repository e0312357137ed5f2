SPECIFICATION Spec
CONSTANTS MaxW = 5
          Emit = FALSE
INVARIANTS OK Bound Progress HasRoot PairsOnce
PROPERTIES Ends
CHECK_DEADLOCK FALSE
