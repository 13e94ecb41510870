SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS Positive StepsAgree Quotient PublishedOnce
