SPECIFICATION Spec
CONSTANTS MaxN = 7
          MaxM = 5
INVARIANTS Typed Multiplicity Once
CHECK_DEADLOCK FALSE
