SPECIFICATION Spec
CONSTANTS N = 1
Pieces = "wide"
INVARIANT Pointwise
INVARIANT Commutes
INVARIANT MinMax
INVARIANT MinMaxArea
INVARIANT Additive
INVARIANT LinearArea
INVARIANT Fundamental
INVARIANT MirrorTwice
INVARIANT MirrorPoint
INVARIANT MirrorArea
INVARIANT ShiftPoint
INVARIANT ShiftBack
INVARIANT SupBounds
INVARIANT Rect
INVARIANT ConvCommutes
CHECK_DEADLOCK FALSE
