SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 10
