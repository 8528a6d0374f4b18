SPECIFICATION Spec
CONSTANTS MaxLen = 14
CONSTANT Sizes <- SizesScal
CONSTANT Weights <- WScal
CHECK_DEADLOCK FALSE
