SPECIFICATION Spec
CONSTANTS Numbers = {1, 2, 9} MaxN = 3 Names = {"a", "x"} Defect = "none"
INVARIANTS Output Complete Listing Others Nothing
PROPERTY Ends
CHECK_DEADLOCK FALSE
