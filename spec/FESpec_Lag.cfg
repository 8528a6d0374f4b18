INIT InitLag
NEXT Next
INVARIANT LagLaw
CHECK_DEADLOCK FALSE
