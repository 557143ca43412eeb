SPECIFICATION Spec
INVARIANT Allowed
CHECK_DEADLOCK FALSE
