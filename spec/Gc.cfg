CONSTANTS N = 4 AsPointers = TRUE
SPECIFICATION Spec
INVARIANTS Kept Present
CHECK_DEADLOCK FALSE
