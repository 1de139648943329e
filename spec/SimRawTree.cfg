SPECIFICATION SSpec
CONSTANTS
  Names = {}
  Vals = {}
  MaxVer = 0
  MaxTrees = 0
  Depth = 80
INVARIANTS PrintHist
CHECK_DEADLOCK FALSE
