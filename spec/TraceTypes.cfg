SPECIFICATION TSpec
CONSTANT Accept <- AcceptTypes
CONSTANT Deviation <- DeviationTypes
CHECK_DEADLOCK FALSE
