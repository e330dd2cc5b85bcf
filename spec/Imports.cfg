SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
