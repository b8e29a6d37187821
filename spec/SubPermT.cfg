SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANTS Divisible ReducedBinomial Final Laplace
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
