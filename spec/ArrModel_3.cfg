SPECIFICATION Spec
CONSTANTS Dims <- Dims212
Vals = {1, 2}
MaxLen = 3
MaxH = 4
INVARIANTS ReadsLastWrite Within
PROPERTIES OneElement NoDisturbance
CHECK_DEADLOCK FALSE
