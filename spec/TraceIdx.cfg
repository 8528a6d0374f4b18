SPECIFICATION TSpec
CONSTANT Judge <- OkIdx
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
