CONSTANTS Small = 4 Every = 8
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
