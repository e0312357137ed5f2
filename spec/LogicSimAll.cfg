SPECIFICATION Spec
CONSTANTS MaxW = 7
          Emit = FALSE
INVARIANTS Good Once Kept0 NoChunk ArgLaw NegLaw
CHECK_DEADLOCK FALSE
