SPECIFICATION Spec
INVARIANTS Whole Runs Becomes
PROPERTIES Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Calls = {1, 2}
  Defect = "none"
