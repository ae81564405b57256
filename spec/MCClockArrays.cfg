SPECIFICATION Spec
CONSTANTS N = 4
 L = 6
 Defect = ""
INVARIANTS Pairs Counted Common Moves Copy Swapped Norms Windows
CHECK_DEADLOCK FALSE
