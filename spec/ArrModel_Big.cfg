SPECIFICATION Spec
CONSTANTS Dims <- Dims22
Vals = {1}
MaxLen = 5
MaxH = 3
INVARIANTS ReadsLastWrite Within
PROPERTIES OneElement NoDisturbance
CHECK_DEADLOCK FALSE
