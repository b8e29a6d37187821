SPECIFICATION Spec
CONSTANTS MaxSize = 3
          MaxOps = 3
INVARIANTS Inside SameModes Ordinary
PROPERTIES Unharmed
CHECK_DEADLOCK FALSE
