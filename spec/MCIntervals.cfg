SPECIFICATION Spec
CONSTANTS N = 2
          K = 3
INVARIANTS SimplifyCorrect DifferenceCorrect CanonFaithful ContiguousFaithful ChopPartitions
CHECK_DEADLOCK FALSE
