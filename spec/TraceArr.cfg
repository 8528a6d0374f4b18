SPECIFICATION HSpec
CONSTANTS InitSt <- AInit
Apply <- AApply
Ok <- AOk
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
