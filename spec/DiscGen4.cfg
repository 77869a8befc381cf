SPECIFICATION Spec
CONSTANTS N = 4
          Q = 8
          K = 4
          D = 8
CHECK_DEADLOCK FALSE
