SPECIFICATION Spec
INVARIANT Unique OneDelta
CHECK_DEADLOCK FALSE
