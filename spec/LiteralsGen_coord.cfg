SPECIFICATION Spec
CONSTANT Mode = "coord"
CONSTANT Depth = 4
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
