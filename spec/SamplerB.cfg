SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS PartialLaw Final
CHECK_DEADLOCK FALSE
