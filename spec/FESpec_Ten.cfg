INIT InitTen
NEXT Next
INVARIANT TenLaw
CHECK_DEADLOCK FALSE
