SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANT AllConsistent
INVARIANT SplitJoins
INVARIANT Emit
CHECK_DEADLOCK FALSE
