SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxM = 4
INVARIANTS Valid InRange OnTrack Complete OracleByDefinition
PROPERTIES Decreasing Terminates
CHECK_DEADLOCK FALSE
