SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANTS SameObservations DefinedAgrees
VIEW View
CHECK_DEADLOCK FALSE
