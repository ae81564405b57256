SPECIFICATION Spec
INVARIANT Pure
INVARIANT Untouched
CHECK_DEADLOCK FALSE
CONSTANTS
  Cells = {"x", "y"}
  Files = {"f"}
  Vals = {0, 1}
  Options = {0, 1}
  MaxSteps = 4
  Defect = "none"
