INIT InitCard
NEXT Next
INVARIANT CardLaw
CHECK_DEADLOCK FALSE
