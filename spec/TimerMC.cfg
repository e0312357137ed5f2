SPECIFICATION Spec
CONSTANTS
  Steps = {1, 3, 239, 14400}
  Depth = 5
INVARIANTS LapsAddUp InOrder Bounded
CHECK_DEADLOCK FALSE
