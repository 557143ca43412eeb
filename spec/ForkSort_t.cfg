CONSTANTS N = 9  Rec = 1  MGs = {1, 2, 3, 4}  Changes = 2  Bug = "none"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Disjoint Covered Quotas Counter OneChannel SoloIfSmall Portions Helped NoMixup Complete NoDeadlock
