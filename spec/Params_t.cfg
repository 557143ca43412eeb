CONSTANTS MaxV = 40
SPECIFICATION Spec
INVARIANT Enough
CHECK_DEADLOCK FALSE
