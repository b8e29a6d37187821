SPECIFICATION Spec
CONSTANTS MaxN = 3
          MaxM = 3
INVARIANTS Shape Entries
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
