SPECIFICATION Spec
CONSTANT MaxOps = 14
INVARIANT PrintHist
CHECK_DEADLOCK FALSE
