SPECIFICATION HSpec
CONSTANTS InitSt <- TfInit
Apply <- TfApply
Ok <- TfOk
CHECK_DEADLOCK FALSE
POSTCONDITION AllConsumed
