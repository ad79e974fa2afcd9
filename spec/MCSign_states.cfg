SPECIFICATION Spec
CONSTANTS
  Depth = 1000
  Setups = {1, 2, 3, 4, 5, 6}
  Mode = "states"
  Sample = 1
INVARIANT SameAsOneShot
INVARIANT Settled
INVARIANT SamePreimages
INVARIANT Bounded
PROPERTY Unchanging
PROPERTY NoLoss
CHECK_DEADLOCK FALSE
