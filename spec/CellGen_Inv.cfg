SPECIFICATION Spec
CONSTANTS MaxLen = 14
CONSTANT Sizes <- SizesLin
CONSTANT Weights <- WInv
CHECK_DEADLOCK FALSE
