SPECIFICATION Spec
CONSTANTS Types <- Types0
MaxLen = 30
MaxH = 14
CHECK_DEADLOCK FALSE
