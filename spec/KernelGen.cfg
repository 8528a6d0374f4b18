SPECIFICATION Spec
CONSTANT MaxLen = 15
CHECK_DEADLOCK FALSE
