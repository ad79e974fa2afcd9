SPECIFICATION TSpec
CONSTANT Accept <- AcceptEcc
CONSTANT Deviation <- DeviationEcc
CHECK_DEADLOCK FALSE
