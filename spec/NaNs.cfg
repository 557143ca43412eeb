CONSTANTS MaxN = 6 MaxKey = 2 Bug = "none"
SPECIFICATION Spec
INVARIANTS Separated Moved Sorted Verdict
CHECK_DEADLOCK FALSE
