SPECIFICATION Spec
CONSTANTS
  Edits = 2
  Short = 4
  Sample = 16
INVARIANT AddressOnly
INVARIANT Recovered
INVARIANT Nulldata
INVARIANT Key
INVARIANT SpendsArePushes
INVARIANT Wire
INVARIANT Emit
CHECK_DEADLOCK FALSE
