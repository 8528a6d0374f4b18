INIT InitQd
NEXT Next
INVARIANT QuadLaw
CHECK_DEADLOCK FALSE
