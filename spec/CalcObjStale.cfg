SPECIFICATION Spec
CONSTANTS Mats = {"A", "B"}
          States = {"s", "t", "u"}
          MaxOps = 5
          LimitsAtCompute = FALSE
INVARIANTS Current
CHECK_DEADLOCK FALSE
