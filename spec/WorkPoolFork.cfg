SPECIFICATION Spec
CONSTANTS MaxK = 4
          MaxThreads = 3
          Procs = 2
          Inherit = TRUE
INVARIANTS SplitOK Complete Distinct
CHECK_DEADLOCK FALSE
