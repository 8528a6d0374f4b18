SPECIFICATION TSpec
CONSTANT Judge <- JudgeCfg
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
