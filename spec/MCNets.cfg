SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Along Stale
