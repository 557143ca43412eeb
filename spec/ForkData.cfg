CONSTANTS N = 7  Rec = 2  MGs = {1, 3}  Changes = 0  Bug = "none"  Vals = {1, 2}
SPECIFICATION DSpec
INVARIANTS Rearranged Placed Belong SortedAtEnd Complete
