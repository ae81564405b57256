SPECIFICATION Spec
CONSTANTS MaxL = 3
CHECK_DEADLOCK FALSE
