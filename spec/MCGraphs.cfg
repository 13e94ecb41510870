SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT EmitIf
INVARIANT OK
PROPERTIES RemovalLeavesNoTrace AdditionsOnlyAdd
CHECK_DEADLOCK FALSE
