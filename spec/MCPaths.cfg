SPECIFICATION MCSpec
INVARIANT PathsDecide ConfoundersExist BackDoor MediatorsExist
CHECK_DEADLOCK FALSE
