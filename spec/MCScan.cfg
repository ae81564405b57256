SPECIFICATION Spec
CONSTANTS Max0 = 4
 Reach = 1
 Defect = ""
INVARIANTS Once Covers Nearest First InOrder AllTried
CHECK_DEADLOCK FALSE
