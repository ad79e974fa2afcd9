SPECIFICATION Spec
INVARIANT Inverse1
INVARIANT Upper1
INVARIANT Odd1
INVARIANT Lengths1
