SPECIFICATION TSpec
CONSTANT Judge <- OkFE
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
