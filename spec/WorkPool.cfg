SPECIFICATION Spec
CONSTANTS MaxK = 4
          MaxThreads = 3
          Procs = 2
          Inherit = FALSE
INVARIANTS SplitOK Complete Distinct
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
