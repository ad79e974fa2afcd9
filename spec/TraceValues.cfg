SPECIFICATION TSpec
CONSTANT Accept <- AcceptValues
CONSTANT Deviation <- DeviationValues
CHECK_DEADLOCK FALSE
