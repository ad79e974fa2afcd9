SPECIFICATION Spec
CONSTANTS
  MaxIns = 3
  MaxOuts = 3
  Flags <- AllFlags
INVARIANT NonInterference
INVARIANT FlagSigned
INVARIANT Size
INVARIANT Emit
CHECK_DEADLOCK FALSE
