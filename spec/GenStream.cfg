SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 8
  Streams = 3
