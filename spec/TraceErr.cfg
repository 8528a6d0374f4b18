SPECIFICATION HSpec
CONSTANTS InitSt <- PInit
Apply <- PApply
Ok <- POk
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
