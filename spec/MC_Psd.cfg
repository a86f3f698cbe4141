SPECIFICATION Spec
INVARIANTS ClosedOk AddOk JOk PwOk MergeOk P2AOk SplineOk
CHECK_DEADLOCK FALSE
