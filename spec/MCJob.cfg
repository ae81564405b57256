SPECIFICATION Spec
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Defect = "none"
