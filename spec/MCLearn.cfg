SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Valid Families Complete
