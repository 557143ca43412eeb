CONSTANTS Ns = {9, 10}  Ranks = {0, 1, 2}  Pv = 1  AtLeast = 3  Interleave = FALSE  Bug = "none"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InBounds Apart Permuted PartOneRight PartConRight Ends
