CONSTANTS Sizes = {9, 10, 11, 12} Keys = {0, 1, 2} Ins = 8 Forms = {"four", "three", "lsw"} Bug = "none"
SPECIFICATION Spec
INVARIANTS Sorted Shallow
CHECK_DEADLOCK FALSE
