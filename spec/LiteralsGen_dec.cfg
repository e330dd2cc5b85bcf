SPECIFICATION Spec
CONSTANT Mode = "dec"
CONSTANT Depth = 4
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
