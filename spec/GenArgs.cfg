SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 2
  MaxBad = 1
