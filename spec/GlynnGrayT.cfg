SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANTS ExactSums ExactSign LastFixed EachOnce Final
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
