SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS Divisible ReducedBinomial Final Laplace
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
