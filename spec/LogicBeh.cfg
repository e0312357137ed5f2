SPECIFICATION Spec
CONSTANTS MaxW = 2
          Emit = TRUE
INVARIANTS Good Once Kept0 NoChunk NegLaw
CHECK_DEADLOCK FALSE
