SPECIFICATION SSpec
CONSTANTS
  SimNames = {"n1", "n2", "n3"}
  SimKeys = {"k1", "k2", "k3"}
  Size = 10
  Universes = 40
  Depth = 61
INVARIANT PrintHist
CHECK_DEADLOCK FALSE
