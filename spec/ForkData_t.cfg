CONSTANTS N = 8  Rec = 2  MGs = {1, 2, 3}  Changes = 1  Bug = "none"  Vals = {1, 2}
SPECIFICATION DSpec
INVARIANTS Rearranged Placed Belong SortedAtEnd Complete
