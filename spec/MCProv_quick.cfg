SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANT AllConsistent
INVARIANT SplitJoins
INVARIANT Emit
CHECK_DEADLOCK FALSE
