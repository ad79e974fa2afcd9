SPECIFICATION TSpec
CONSTANT Accept <- AcceptScript
CONSTANT Deviation <- DeviationScript
CHECK_DEADLOCK FALSE
