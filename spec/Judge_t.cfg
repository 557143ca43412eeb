CONSTANTS Gs = 3  Objs = 1  Depth = 6  MGs = {}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RaceRight SharedRight LateRight QuotaRight
