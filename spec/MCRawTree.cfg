SPECIFICATION MCSpec
CONSTANTS
  Names = {"n1", "n2", "n3", "n4"}
  Vals = {"k1"}
  MaxVer = 3
  MaxTrees = 3
  Depth = 0
VIEW MCView
PROPERTIES Independent
CHECK_DEADLOCK FALSE
