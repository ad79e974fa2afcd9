SPECIFICATION TSpec
CONSTANT Accept <- AcceptAddr
CONSTANT Deviation <- DeviationAddr
CHECK_DEADLOCK FALSE
