CONSTANTS MaxV = 14
SPECIFICATION Spec
INVARIANT Enough
CHECK_DEADLOCK FALSE
