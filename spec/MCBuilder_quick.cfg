SPECIFICATION Spec
CONSTANTS
  MaxOuts = 2
  Fees = {0, 1000, 3001}
  Sample = 3
INVARIANT Holds
INVARIANT Emit
CHECK_DEADLOCK FALSE
