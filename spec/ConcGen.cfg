SPECIFICATION Spec
CONSTANTS MaxT = 4
MaxLen = 14
NOps = 5040
NIns = 16
CHECK_DEADLOCK FALSE
