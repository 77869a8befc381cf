SPECIFICATION Spec
INVARIANT DoneNote
CHECK_DEADLOCK FALSE
