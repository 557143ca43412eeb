CONSTANTS N = 8  Rec = 1  MGs = {1, 2, 4}  Changes = 1  Bug = "none"
SPECIFICATION OSpec
CHECK_DEADLOCK FALSE
INVARIANTS NotStale NotIgnored
