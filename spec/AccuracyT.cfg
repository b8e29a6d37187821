SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS ExactOrMissing CompleteSum
PROPERTIES Eventually
CHECK_DEADLOCK FALSE
