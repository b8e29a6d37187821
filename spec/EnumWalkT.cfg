SPECIFICATION Spec
CONSTANTS MaxN = 6
          MaxM = 5
INVARIANTS Valid InRange OnTrack Complete OracleByDefinition
PROPERTIES Decreasing Terminates
CHECK_DEADLOCK FALSE
