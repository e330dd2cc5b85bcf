SPECIFICATION Spec
CONSTRAINT Report
INVARIANT Sound
CHECK_DEADLOCK FALSE
