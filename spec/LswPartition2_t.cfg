CONSTANTS Ns = {17} Off = 1 Vals = {{0, 1}, {1, 2}} Interleave = FALSE Bug = "none"
SPECIFICATION Spec
INVARIANTS Swaps Balanced NoConflict InBounds PivotKnown Permuted PartRight Ends
CHECK_DEADLOCK FALSE
