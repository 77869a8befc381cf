SPECIFICATION Spec
CONSTANTS NVars = 2
          K = 2
          Steps = 6
INVARIANTS Functional Referable DeepFresh UpdateWins MinusGone Local
CHECK_DEADLOCK FALSE
