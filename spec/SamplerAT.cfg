SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS PartialLaw Final Normalisable
CHECK_DEADLOCK FALSE
