SPECIFICATION Spec
CONSTANTS MaxW = 3
          Emit = FALSE
INVARIANTS NoChunk
CHECK_DEADLOCK FALSE
