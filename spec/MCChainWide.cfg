SPECIFICATION Spec
CONSTANTS N = 3
          Steps_ = 3
INVARIANTS Relative MessagesExact Proper Within Reversible ScaleFree
CHECK_DEADLOCK FALSE
