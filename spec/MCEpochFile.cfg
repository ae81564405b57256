SPECIFICATION Spec
CONSTANTS MaxN = 2 Diffs = {0, 1, 2, 5} Defect = "none"
INVARIANTS Sound Complete Prefix
PROPERTY Ends
CHECK_DEADLOCK FALSE
