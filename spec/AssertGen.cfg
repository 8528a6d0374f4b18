SPECIFICATION Spec
CONSTANTS MaxLen = 12
LongLen = 160
Sites = 14
Formats = 12
CHECK_DEADLOCK FALSE
