SPECIFICATION Spec
CONSTANT MaxLen = 12
CHECK_DEADLOCK FALSE
