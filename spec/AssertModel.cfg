SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANT Law
PROPERTIES PassIsSilent OnlyGrows Dead
CHECK_DEADLOCK FALSE
