SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS Normalised ClosedForm NumberLaw LawNormalised Commute Compose BinomialMixture Extremes Dephased
CHECK_DEADLOCK FALSE
