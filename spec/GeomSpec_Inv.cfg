SPECIFICATION Spec
CONSTANTS Part = "inv"  Full = FALSE
INVARIANT InvOK
CHECK_DEADLOCK FALSE
