SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS DilationFree LawSumsToOne ColumnLosses ScaledUnitary
CHECK_DEADLOCK FALSE
