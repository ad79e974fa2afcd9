SPECIFICATION TSpec
CONSTANT Accept <- AcceptJson
CONSTANT Deviation <- DeviationJson
CHECK_DEADLOCK FALSE
