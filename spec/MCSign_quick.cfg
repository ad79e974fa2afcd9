SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Setups = {1, 2, 3, 5, 6}
  Mode = "all"
  Sample = 5
INVARIANT SameAsOneShot
INVARIANT Settled
INVARIANT SamePreimages
INVARIANT Bounded
INVARIANT Emit
PROPERTY Unchanging
PROPERTY NoLoss
CHECK_DEADLOCK FALSE
