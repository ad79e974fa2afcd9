SPECIFICATION Spec
INVARIANT Equivalence WrittenAlike OnlyForm TotalOrder Numeric
CHECK_DEADLOCK FALSE
