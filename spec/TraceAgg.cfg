SPECIFICATION HSpec
CONSTANTS InitSt <- GInit
Apply <- GApply
Ok <- GOk
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
