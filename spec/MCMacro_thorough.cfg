SPECIFICATION Spec
CONSTANT Depth = 4
CONSTANT Sample = 300
INVARIANT Sound
INVARIANT EmitCase
CHECK_DEADLOCK FALSE
