SPECIFICATION Spec
CONSTANTS
  SimNames = {"n1", "n2", "n3", "n4", "n5", "nx"}
  SimKeys = {"k1", "k2", "k3"}
  SimClients = {1, 2, 3, 4, 5, 6, 7, 8}
  Depth = 64
INVARIANT PrintHist
CHECK_DEADLOCK FALSE
