SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK HardIsCertain ClearIsPrior ToggleTwice BatchOrder FlatIsNothing
PROPERTY Isolation
CHECK_DEADLOCK FALSE
