SPECIFICATION HSpec
CONSTANTS InitSt <- KInit
Apply <- KStep
Ok <- KOk
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
