SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4, 5, 6, 7, 8, 9}
          MaxSize = 12
          D = 30
CHECK_DEADLOCK FALSE
