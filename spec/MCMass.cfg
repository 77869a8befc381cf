SPECIFICATION Spec
CONSTANTS N = 2
          Q = 4
          K = 2
INVARIANTS Proper CropCrop Total UnionCrop Conditional Additive ExpectationLinear VarianceIdentity CdfMonotone JaccardRange
CHECK_DEADLOCK FALSE
