SPECIFICATION Spec
CONSTANT Mode = "value"
CONSTANT Depth = 4
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
