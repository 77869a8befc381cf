SPECIFICATION Spec
CONSTANTS
  D = 16
  K = 4
  MODE = "ask"
CHECK_DEADLOCK FALSE
