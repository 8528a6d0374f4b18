SPECIFICATION TSpec
CONSTANT Judge <- OkShape
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
