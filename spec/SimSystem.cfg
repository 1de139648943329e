SPECIFICATION SSpec
CONSTANTS
  SimNames = {"n1", "n2", "n3", "n4", "n5", "n6"}
  SimKeys = {"k1", "k2", "k3", "k4"}
  SimClients = {"c1", "c2", "c3"}
  SimCaps = {1, 2, 3, 100}
  Depth = 90
INVARIANTS PrintHist ClientsRight AnswersRight Agreement
CHECK_DEADLOCK FALSE
