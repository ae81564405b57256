CONSTANTS
  B = 3
  MaxL = 5
  Defect = "none"
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
