INIT InitSp
NEXT Next
INVARIANT NodeLaw
CHECK_DEADLOCK FALSE
