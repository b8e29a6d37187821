SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS Normalised ClosedForm NumberLaw LawNormalised Commute Compose BinomialMixture Extremes Dephased
CHECK_DEADLOCK FALSE
