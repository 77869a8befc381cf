SPECIFICATION Spec
CONSTANTS N = 2
 KA = 1
 KB = 1
CHECK_DEADLOCK FALSE
