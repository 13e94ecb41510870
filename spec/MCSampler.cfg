SPECIFICATION MCSpec
INVARIANT WeightIsJoint OnlyGood NoneLost
CHECK_DEADLOCK FALSE
