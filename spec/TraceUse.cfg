SPECIFICATION TSpec
CONSTANT Judge <- OkUse
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
