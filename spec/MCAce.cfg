SPECIFICATION MCSpec
INVARIANT AdjustmentIsIntervention
CHECK_DEADLOCK FALSE
