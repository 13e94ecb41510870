SPECIFICATION MCSpec
INVARIANT TablesExact Forests
CHECK_DEADLOCK FALSE
