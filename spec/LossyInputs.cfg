SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxM = 3
INVARIANTS SubState Exactly
CHECK_DEADLOCK FALSE
