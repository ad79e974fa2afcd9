SPECIFICATION TSpec
CONSTANT Accept <- AcceptSpend
CONSTANT Deviation <- DeviationSpend
CONSTANT SigV <- RealSig
CHECK_DEADLOCK FALSE
