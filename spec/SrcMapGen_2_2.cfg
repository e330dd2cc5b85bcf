SPECIFICATION Spec
CONSTANT N = 2
CONSTANT Steps = 2
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
