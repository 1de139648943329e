SPECIFICATION SSpec
CONSTANTS
  SimNames = {"n1", "n2", "n3", "nx"}
  SimKeys = {"k1", "k2"}
  Kinds = {"raw", "stop", "timer", "reload"}
  Depth = 26
  MaxTicks = 5
INVARIANTS PrintHist Linear AppendOnly Promises TBOnlyPending Retention Faithful Drained
CHECK_DEADLOCK FALSE
