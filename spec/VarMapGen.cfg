SPECIFICATION Spec
CONSTANTS NVars = 4
          K = 3
          D = 24
CHECK_DEADLOCK FALSE
