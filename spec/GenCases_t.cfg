CONSTANTS Small = 5 Every = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
