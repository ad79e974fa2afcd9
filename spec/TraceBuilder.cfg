SPECIFICATION TSpec
CONSTANT Start <- StartB
CONSTANT Step <- StepB
CHECK_DEADLOCK FALSE
