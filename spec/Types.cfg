CONSTANTS Depth = 3 Bug = "none"
SPECIFICATION Spec
INVARIANT Dispatch
CHECK_DEADLOCK FALSE
