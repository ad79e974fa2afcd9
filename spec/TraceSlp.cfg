SPECIFICATION TSpec
CONSTANT Accept <- AcceptSlp
CONSTANT Deviation <- DeviationSlp
CHECK_DEADLOCK FALSE
