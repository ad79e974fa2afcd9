SPECIFICATION TSpec
CONSTANT Start <- StartInt
CONSTANT Step <- StepInt
CHECK_DEADLOCK FALSE
