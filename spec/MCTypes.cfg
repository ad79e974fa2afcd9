SPECIFICATION Spec
INVARIANT PushLeavesValue LockReadsBack TextTells CodesNest
CHECK_DEADLOCK FALSE
