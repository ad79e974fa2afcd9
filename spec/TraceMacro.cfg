SPECIFICATION TSpec
CONSTANT Accept <- AcceptMacro
CONSTANT Deviation <- DeviationMacro
CHECK_DEADLOCK FALSE
