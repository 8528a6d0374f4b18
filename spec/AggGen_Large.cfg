SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxF = 26
MaxL = 14
 Cyclic = FALSE
