SPECIFICATION Spec
CONSTANTS Outcomes = {"a", "b", "c"}
          NS = 4
INVARIANTS Aligned AtMostAll
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
