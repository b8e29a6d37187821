SPECIFICATION Spec
CONSTANTS MaxK = 6
          MaxThreads = 3
          Procs = 3
          Inherit = FALSE
INVARIANTS SplitOK Complete Distinct
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
