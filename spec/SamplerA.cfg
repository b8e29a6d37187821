SPECIFICATION Spec
CONSTANT MaxN = 2
INVARIANTS PartialLaw Final Normalisable
CHECK_DEADLOCK FALSE
