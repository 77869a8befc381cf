SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
          MaxSize = 6
          Steps = 7
INVARIANTS Same InOrder HeadLeast Sorts
CHECK_DEADLOCK FALSE
