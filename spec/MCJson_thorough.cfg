SPECIFICATION Spec
CONSTANT Entries = 3
CONSTANT Lists = 2
INVARIANT Bounded
INVARIANT Agree
INVARIANT Fuel
INVARIANT RoundTrip
INVARIANT Emit
CHECK_DEADLOCK FALSE
