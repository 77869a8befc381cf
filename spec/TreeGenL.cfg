SPECIFICATION Spec
CONSTANTS
  D = 3
  K = 2
  MODE = "learn"
CHECK_DEADLOCK FALSE
