SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
          MaxSize = 7
          Steps = 9
INVARIANTS Same InOrder HeadLeast Sorts
CHECK_DEADLOCK FALSE
