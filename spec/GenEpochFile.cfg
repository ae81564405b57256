SPECIFICATION Spec
CONSTANTS MaxN = 9
CHECK_DEADLOCK FALSE
