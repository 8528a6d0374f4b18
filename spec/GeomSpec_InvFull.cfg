SPECIFICATION Spec
CONSTANTS Part = "inv"  Full = TRUE
INVARIANT InvOK
CHECK_DEADLOCK FALSE
