SPECIFICATION Spec
CONSTANTS L = 4
 Defect = ""
INVARIANTS Right Ordered Fixed
CHECK_DEADLOCK FALSE
