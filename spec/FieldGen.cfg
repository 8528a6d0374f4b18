CONSTANTS
 Types <- Types0
 MaxLen = 30
 NF = 2
 NP = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
