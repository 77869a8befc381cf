SPECIFICATION Spec
CONSTANTS NR = 6
INVARIANTS Partition BigEnough Shallow Stable GainRange SplitsDescribe
PROPERTY Terminates
CHECK_DEADLOCK FALSE
