SPECIFICATION TSpec
CONSTANT Accept <- AcceptOpc
CONSTANT Deviation <- DeviationOpc
CHECK_DEADLOCK FALSE
