SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANT InBounds
INVARIANT Consumed
INVARIANT TruncatedOnly
INVARIANT Stable
CHECK_DEADLOCK FALSE
