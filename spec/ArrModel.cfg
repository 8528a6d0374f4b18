SPECIFICATION Spec
CONSTANTS Dims <- Dims22
Vals = {1, 2}
MaxLen = 4
MaxH = 3
INVARIANTS ReadsLastWrite Within
PROPERTIES OneElement NoDisturbance
CHECK_DEADLOCK FALSE
