SPECIFICATION Spec
CONSTANTS MaxR = 3
MaxD = 3
CHECK_DEADLOCK FALSE
POSTCONDITION AllListed
