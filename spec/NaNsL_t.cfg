CONSTANTS MaxN = 7 MaxKey = 2 Bug = "none"
SPECIFICATION Spec
PROPERTY Finishes
CHECK_DEADLOCK FALSE
