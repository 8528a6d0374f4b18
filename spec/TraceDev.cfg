SPECIFICATION HSpec
CONSTANTS InitSt <- DInit
Apply <- DStep
Ok <- DOk
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
