SPECIFICATION BSpec
CONSTANTS MaxN = 4
          MaxK = 3
CHECK_DEADLOCK FALSE
