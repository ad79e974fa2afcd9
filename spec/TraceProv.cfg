SPECIFICATION TSpec
CONSTANT Start <- StartProv
CONSTANT Step <- StepProv
CHECK_DEADLOCK FALSE
