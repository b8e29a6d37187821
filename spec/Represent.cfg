SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxM = 4
INVARIANTS Sorted Prefix Partial RoundTrip
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
