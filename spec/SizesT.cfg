SPECIFICATION Spec
CONSTANTS MaxSize = 4
          MaxOps = 4
INVARIANTS Inside SameModes Ordinary
PROPERTIES Unharmed
CHECK_DEADLOCK FALSE
