SPECIFICATION HSpec
CONSTANTS InitSt <- CInit
Apply <- CApply
Ok <- COk
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
