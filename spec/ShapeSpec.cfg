SPECIFICATION Spec
CONSTANT NMax = 6
INVARIANT CountLaw
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
