CONSTANTS Ns = {8, 9} Off = 1 Vals = {{0, 1, 2}} Interleave = FALSE Bug = "none"
SPECIFICATION Spec
INVARIANTS Swaps NoConflict InBounds PivotKnown Permuted PartRight Ends
CHECK_DEADLOCK FALSE
