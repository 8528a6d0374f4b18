SPECIFICATION Spec
INVARIANT Law
CHECK_DEADLOCK FALSE
