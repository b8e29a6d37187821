SPECIFICATION Spec
CONSTANTS Values = {"A", "B", "C"}
          MaxProducts = 3
          MaxCells = 5
          CopyOnGenerate = TRUE
INVARIANTS Independent Configured
CHECK_DEADLOCK FALSE
