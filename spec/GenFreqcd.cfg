SPECIFICATION Spec
CONSTANTS Depth = 6 WithFreq = TRUE WithFault = FALSE
CHECK_DEADLOCK FALSE
