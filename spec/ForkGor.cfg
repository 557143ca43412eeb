CONSTANTS N = 5  Rec = 1  MGs = {2, 3}  Changes = 0  Bug = "none"
SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANTS Blameless Shared Complete2
