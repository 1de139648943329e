SPECIFICATION LSpec
VIEW LView
INVARIANT Progress
CHECK_DEADLOCK FALSE
