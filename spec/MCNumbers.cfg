SPECIFICATION Spec
CONSTANT Lim = 20000
INVARIANT NumInverse
INVARIANT Shortest
INVARIANT Padded
INVARIANT PushBack
CHECK_DEADLOCK FALSE
