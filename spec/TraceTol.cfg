SPECIFICATION TSpec
CONSTANT Judge <- JudgeTol
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
