CONSTANTS W = 9 Bug = "none"
SPECIFICATION Spec
INVARIANTS Bracket Right Few FewEnough
PROPERTY Finishes
CHECK_DEADLOCK FALSE
