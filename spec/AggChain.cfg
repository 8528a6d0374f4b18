CONSTANTS
 Deep = 1200
 Wide = 300
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
