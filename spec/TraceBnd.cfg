SPECIFICATION TSpec
CONSTANT Judge <- JudgeBnd
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
