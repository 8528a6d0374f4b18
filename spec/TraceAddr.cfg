SPECIFICATION TSpec
CONSTANT Judge <- JudgeAddr
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
