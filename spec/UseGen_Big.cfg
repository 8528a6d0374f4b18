SPECIFICATION Spec
CONSTANT Big = TRUE
CHECK_DEADLOCK FALSE
