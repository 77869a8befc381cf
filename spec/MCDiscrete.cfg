SPECIFICATION Spec
CONSTANTS N = 3
          Q = 4
          K = 2
INVARIANTS AllProper CropCrop TotalProb Additive ExpectationLinear VarianceIdentity ConvolveAdds OverlapRange
CHECK_DEADLOCK FALSE
