SPECIFICATION TSpec
CONSTANT Judge <- OkDevEvent
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
