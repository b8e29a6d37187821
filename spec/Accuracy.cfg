SPECIFICATION Spec
CONSTANT MaxN = 2
INVARIANTS ExactOrMissing CompleteSum
PROPERTIES Eventually
CHECK_DEADLOCK FALSE
