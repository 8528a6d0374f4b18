SPECIFICATION Spec
CONSTANTS MaxR = 4
MaxD = 3
CHECK_DEADLOCK FALSE
POSTCONDITION AllListed
