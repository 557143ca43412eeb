CONSTANTS Gs = 3  Objs = 1  Depth = 5  MGs = {1, 3}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RaceRight SharedRight LateRight QuotaRight
