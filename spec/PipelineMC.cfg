SPECIFICATION Spec
CONSTANTS MaxTexts = 3
          Kinds = {"none", "one", "two", "dropped", "cut", "ends"}
          MaxK = 3
          MaxB = 2
INVARIANTS OneEach Slices AllSliced
PROPERTIES Ends
CHECK_DEADLOCK FALSE
