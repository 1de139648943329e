SPECIFICATION SSpec
CONSTANTS
  SimNames = {"n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8"}
  SimKeys = {"k1", "k2", "k3", "k4", "k5"}
  SimCaps = {0, 1, 2, 3, 4, 5, 8, 100}
  Depth = 70
INVARIANTS PrintHist Linear AppendOnly Promises TBOnlyPending Retention Faithful
CHECK_DEADLOCK FALSE
