SPECIFICATION Spec
INVARIANTS Conservation NoDoubleSpend StateIsFold PendingPartition Signed NextTargetExists
CHECK_DEADLOCK FALSE
