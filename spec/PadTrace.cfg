SPECIFICATION TSpec
INVARIANT TraceInv
CHECK_DEADLOCK FALSE
