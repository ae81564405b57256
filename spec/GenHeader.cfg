SPECIFICATION Spec
INVARIANT Tell
CHECK_DEADLOCK FALSE
