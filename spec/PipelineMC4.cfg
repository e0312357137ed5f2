SPECIFICATION Spec
CONSTANTS MaxTexts = 4
          Kinds = {"none", "one", "two", "dropped", "cut"}
          MaxK = 3
          MaxB = 2
INVARIANTS OneEach Slices AllSliced
PROPERTIES Ends
CHECK_DEADLOCK FALSE
