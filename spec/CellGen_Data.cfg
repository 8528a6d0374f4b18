SPECIFICATION Spec
CONSTANTS MaxLen = 14
CONSTANT Sizes <- SizesLin
CONSTANT Weights <- WData
CHECK_DEADLOCK FALSE
