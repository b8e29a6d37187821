SPECIFICATION Spec
CONSTANTS D = 4
          K = 3
          MaxNum = 600
INVARIANTS Metric Factors Conserved
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
