CONSTANTS Ns = {8, 9}  Ranks = {0, 1, 2}  Pv = 1  AtLeast = 3  Interleave = TRUE  Bug = "none"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS InBounds Apart Permuted PartOneRight PartConRight Ends
PROPERTY Terminates
