SPECIFICATION Spec
INVARIANT Progress
INVARIANT InText
INVARIANT NothingLost
INVARIANT Report
CHECK_DEADLOCK FALSE
