SPECIFICATION Spec
CONSTANTS Types <- Types1
MaxLen = 9
MaxH = 5
CHECK_DEADLOCK FALSE
