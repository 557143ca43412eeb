CONSTANTS N = 13  Rec = 1  MGs = {2, 3, 4, 6}  Changes = 0  Bug = "none"
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
INVARIANT Emit
