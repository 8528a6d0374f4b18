SPECIFICATION Spec
CONSTANTS MaxDims = 3  MaxRange = 3
INVARIANTS InOrder InBox Counts Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
