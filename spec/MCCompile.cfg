SPECIFICATION MCSpec
INVARIANT ValidWhenDone NeverNested
CHECK_DEADLOCK FALSE
