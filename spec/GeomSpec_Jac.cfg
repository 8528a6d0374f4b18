SPECIFICATION Spec
CONSTANTS Part = "jac"  Full = FALSE
INVARIANT JacOK
CHECK_DEADLOCK FALSE
