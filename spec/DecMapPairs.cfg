SPECIFICATION Spec
INVARIANT Facts
CHECK_DEADLOCK FALSE
