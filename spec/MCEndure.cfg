SPECIFICATION Spec
INVARIANT Constant
INVARIANT Few
PROPERTY Asleep
CHECK_DEADLOCK FALSE
CONSTANTS
  Buf = 4
  Steps = 4
  Defect = "none"
