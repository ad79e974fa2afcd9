SPECIFICATION Spec
CONSTANTS
  Edits = 1
  Short = 3
  Sample = 4
INVARIANT AddressOnly
INVARIANT Recovered
INVARIANT Nulldata
INVARIANT Key
INVARIANT SpendsArePushes
INVARIANT Wire
INVARIANT Emit
CHECK_DEADLOCK FALSE
