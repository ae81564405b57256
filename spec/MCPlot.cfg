SPECIFICATION Spec
CONSTANTS U = 8
 L = 5
 Defect = ""
INVARIANTS Aligned
CHECK_DEADLOCK FALSE
