SPECIFICATION Spec
INVARIANT Tell
CHECK_DEADLOCK FALSE
CONSTANT Faults = 2
