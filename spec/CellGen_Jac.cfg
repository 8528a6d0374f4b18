SPECIFICATION Spec
CONSTANTS MaxLen = 14
CONSTANT Sizes <- SizesLin
CONSTANT Weights <- WJac
CHECK_DEADLOCK FALSE
