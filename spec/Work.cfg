CONSTANTS MaxN = 700 Ins = 60 Touch = 4 Side = 4
SPECIFICATION Spec
INVARIANT Bounded
CHECK_DEADLOCK FALSE
