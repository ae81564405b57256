SPECIFICATION Spec
CONSTANTS M = 4 W = 3 P = 7 Q = 13 U = 10 Defect = "none"
INVARIANTS Dates Found Increasing AllThere
PROPERTY Ends
CHECK_DEADLOCK FALSE
