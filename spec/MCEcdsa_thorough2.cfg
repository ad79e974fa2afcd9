SPECIFICATION Spec
CONSTANTS PP = 79 NN = 67 GX = 1 GY = 18 Slice = 300
INVARIANT SignVerifies
INVARIANT VerifyExact
POSTCONDITION Explored
CHECK_DEADLOCK FALSE
