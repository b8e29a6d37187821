SPECIFICATION Spec
CONSTANT RawMats <- TraceMats
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
