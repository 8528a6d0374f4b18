SPECIFICATION Spec
CONSTANTS MaxD = 3
MaxR = 3
INVARIANTS NoTouchBeforeChecked RightElement AbortNames
PROPERTIES Ends
CHECK_DEADLOCK FALSE
