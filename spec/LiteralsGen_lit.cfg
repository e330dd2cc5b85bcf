SPECIFICATION Spec
CONSTANT Mode = "lit"
CONSTANT Depth = 4
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
