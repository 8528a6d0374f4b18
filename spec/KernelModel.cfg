SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS OnceInOrder Sized
PROPERTY Frame
CHECK_DEADLOCK FALSE
