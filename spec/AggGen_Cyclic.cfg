SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxF = 9
MaxL = 6
 Cyclic = TRUE
