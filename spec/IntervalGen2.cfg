SPECIFICATION Spec
CONSTANTS N = 2
 KA = 2
 KB = 1
CHECK_DEADLOCK FALSE
