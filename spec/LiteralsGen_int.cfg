SPECIFICATION Spec
CONSTANT Mode = "int"
CONSTANT Depth = 4
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
