SPECIFICATION Spec
CONSTANTS Mats = {"A", "B"}
          Inputs = {"s", "t"}
          Keys = {1, 2, 3}
          MaxCalls = 3
          ClearAtCall = TRUE
PROPERTIES Fresh
CHECK_DEADLOCK FALSE
