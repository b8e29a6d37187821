SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS ExactBinomial ExactSums ExactSign InBox Final Definition
PROPERTIES EachOnce Terminates
CHECK_DEADLOCK FALSE
