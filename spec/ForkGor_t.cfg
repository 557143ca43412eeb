CONSTANTS N = 6  Rec = 1  MGs = {1, 2, 3}  Changes = 1  Bug = "none"
SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANTS Blameless Shared Complete2
