SPECIFICATION Spec
CONSTANTS MaxM = 3
          MaxN = 3
          MaxK = 2
INVARIANTS MatrixOK SamplesOK NothingLost
CHECK_DEADLOCK FALSE
