SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 6
  Calls = {1, 2, 3}
  Kinds = {"read", "compute", "write", "fail"}
