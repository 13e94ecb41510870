SPECIFICATION MCSpec
INVARIANT JointKept Calibrated Laws
CHECK_DEADLOCK FALSE
