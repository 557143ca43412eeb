SPECIFICATION Spec
CONSTANTS MaxLen = 3 MaxKey = 2
INVARIANTS CanSort CanJudge Determined AfterSort SameContract WeakOrder Untouched
PROPERTY Frame
CHECK_DEADLOCK FALSE
