SPECIFICATION Spec
CONSTANTS Mats = {"A", "B"}
          States = {"s", "t", "u"}
          MaxOps = 5
          LimitsAtCompute = TRUE
INVARIANTS Current
CHECK_DEADLOCK FALSE
