SPECIFICATION Spec
CONSTANTS N = 2
          Q = 4
          K = 2
INVARIANTS RoundTrip SameCdf SameMean SameMoments SameModes DensityScales
CHECK_DEADLOCK FALSE
