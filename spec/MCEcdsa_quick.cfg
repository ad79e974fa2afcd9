SPECIFICATION Spec
CONSTANTS PP = 43 NN = 31 GX = 2 GY = 12 Slice = 16
INVARIANT SignVerifies
INVARIANT VerifyExact
POSTCONDITION Explored
CHECK_DEADLOCK FALSE
