CONSTANTS N = 6  Rec = 1  MGs = {0, 2, 3}  Changes = 1  Bug = "none"
SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
PROPERTY Finishes
