SPECIFICATION Spec
CONSTANTS MaxN = 4
          MaxK = 4
INVARIANTS Right Surfaces Bounded Partition Balanced
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
