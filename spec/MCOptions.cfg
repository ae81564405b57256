CONSTANTS
  EP = 4
  W = 5
  SMax = 3
  Defect = "none"
SPECIFICATION Spec
INVARIANTS Precedence OnIfGiven WideEnough NotTooMany
CHECK_DEADLOCK FALSE
