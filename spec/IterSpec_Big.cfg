SPECIFICATION Spec
CONSTANTS MaxDims = 4  MaxRange = 3
INVARIANTS InOrder InBox Counts Complete
CHECK_DEADLOCK FALSE
