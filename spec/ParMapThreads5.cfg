SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxK = 5
INVARIANTS Right Surfaces Bounded Partition Balanced
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
