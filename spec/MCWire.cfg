SPECIFICATION Spec
CONSTANT MaxN = 6
INVARIANT ReadsInside
INVARIANT Reencodes
INVARIANT PrefixStable
INVARIANT Truncated
CHECK_DEADLOCK FALSE
