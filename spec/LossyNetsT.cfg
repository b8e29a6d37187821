SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS DilationFree LawSumsToOne ColumnLosses ScaledUnitary
CHECK_DEADLOCK FALSE
