SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS PartialLaw Final
CHECK_DEADLOCK FALSE
