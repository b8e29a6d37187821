SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS ExactSums ExactSign LastFixed EachOnce Final
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
