SPECIFICATION TSpec
CONSTANT Judge <- JudgeInv
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
