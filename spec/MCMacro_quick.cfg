SPECIFICATION Spec
CONSTANT Depth = 3
CONSTANT Sample = 60
INVARIANT Sound
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
