SPECIFICATION TSpec
CONSTANT Accept <- AcceptWire
CONSTANT Deviation <- DeviationWire
CHECK_DEADLOCK FALSE
