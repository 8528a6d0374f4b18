SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxLen = 12
