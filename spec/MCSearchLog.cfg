CONSTANTS
  M = 3
  Defect = "none"
SPECIFICATION Spec
INVARIANTS Understood True
CHECK_DEADLOCK FALSE
