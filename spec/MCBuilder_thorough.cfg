SPECIFICATION Spec
CONSTANTS
  MaxOuts = 3
  Fees = {0, 1000, 3001}
  Sample = 4
INVARIANT Holds
INVARIANT Emit
CHECK_DEADLOCK FALSE
