SPECIFICATION Spec
CONSTANT N = 3
CONSTANT Steps = 1
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
