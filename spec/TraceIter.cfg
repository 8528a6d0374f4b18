SPECIFICATION HSpec
CONSTANTS InitSt <- IInit
Apply <- IApply
Ok <- IOk
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
