SPECIFICATION Spec
CONSTANTS NC = 2 NS = 2 Vals = {0, 1, 2} MaxLen = 3
INVARIANT LastWriteWins
PROPERTY QueriesChangeNothing
PROPERTY OthersUntouched
CHECK_DEADLOCK FALSE
