SPECIFICATION Spec
INVARIANT NotAhead
INVARIANT FewHeld
INVARIANT ComesOut
PROPERTY AllDone
CHECK_DEADLOCK FALSE
CONSTANTS
  Streams = {1, 2}
  Total = 14
  Batch = 2
  Ahead = 2
  Defect = "none"
