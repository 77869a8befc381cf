SPECIFICATION Spec
CONSTANTS NR = 4
INVARIANTS Partition BigEnough Shallow Stable GainRange SplitsDescribe
PROPERTY Terminates
CHECK_DEADLOCK FALSE
