SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
Ops = {1, 2}
Inputs = {0, 1, 2}
MaxEvals = 4
Where = "shared"
Result <- Res
CHECK_DEADLOCK FALSE
INVARIANTS AsAlone Exposed
POSTCONDITION Told
