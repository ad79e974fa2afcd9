SPECIFICATION TSpec
CONSTANT Accept <- AcceptHash
CONSTANT Deviation <- DeviationHash
CHECK_DEADLOCK FALSE
