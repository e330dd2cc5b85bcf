SPECIFICATION Spec
INVARIANT Report
INVARIANT Balanced
CHECK_DEADLOCK FALSE
