CONSTANTS N = 5 AsPointers = TRUE
SPECIFICATION Spec
INVARIANTS Kept Present
CHECK_DEADLOCK FALSE
