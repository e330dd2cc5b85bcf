SPECIFICATION Spec
CONSTRAINT Report
CHECK_DEADLOCK FALSE
