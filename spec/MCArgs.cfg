SPECIFICATION Spec
INVARIANT Agrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxWords = 3
  Defect = "none"
