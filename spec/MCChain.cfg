SPECIFICATION Spec
CONSTANTS N = 2
          Steps_ = 3
INVARIANTS Relative MessagesExact Proper Within Reversible ScaleFree
CHECK_DEADLOCK FALSE
