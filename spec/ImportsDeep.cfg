SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
