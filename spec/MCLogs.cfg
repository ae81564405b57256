SPECIFICATION Spec
INVARIANT EachOnce
INVARIANT Told
PROPERTY Heeded
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"a", "a.b"}
  Files = {"f", "g"}
  Steps = 5
  Defect = "none"
