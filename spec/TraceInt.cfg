SPECIFICATION TSpec
CONSTANT Judge <- JudgeInt
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
