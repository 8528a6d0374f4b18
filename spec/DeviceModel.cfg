SPECIFICATION Spec
CONSTANTS MaxLen = 3
Wait = TRUE
INVARIANTS Same Clean Told Defined OneAtATime
PROPERTY Returns
CHECK_DEADLOCK FALSE
