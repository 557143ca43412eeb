CONSTANTS MaxN = 60 Ins = 2 Bug = "none"
SPECIFICATION Spec
INVARIANTS Halves Shallow InPlace
CHECK_DEADLOCK FALSE
