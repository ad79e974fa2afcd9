SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANT InRange
INVARIANT Laws
INVARIANT Emit
PROPERTY Sticky
CHECK_DEADLOCK FALSE
