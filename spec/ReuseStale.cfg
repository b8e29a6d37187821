SPECIFICATION Spec
CONSTANTS Mats = {"A", "B"}
          Inputs = {"s", "t"}
          Keys = {1, 2, 3}
          MaxCalls = 3
          ClearAtCall = FALSE
PROPERTIES Fresh
CHECK_DEADLOCK FALSE
