SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANT InRange
INVARIANT Laws
INVARIANT Emit
PROPERTY Sticky
CHECK_DEADLOCK FALSE
