SPECIFICATION Spec
CONSTANTS
  MaxIns = 3
  MaxOuts = 3
  Flags = {0, 18, 19, 82, 83, 1, 2, 3, 4, 34, 35, 65, 66, 67, 97, 98, 99, 129, 130, 131, 193, 194, 195, 31, 30, 223, 255}
INVARIANT NonInterference
INVARIANT FlagSigned
INVARIANT Size
INVARIANT Emit
CHECK_DEADLOCK FALSE
