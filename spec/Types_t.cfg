CONSTANTS Depth = 4 Bug = "none"
SPECIFICATION Spec
INVARIANT Dispatch
CHECK_DEADLOCK FALSE
