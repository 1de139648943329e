SPECIFICATION SSpec
CONSTANTS
  Size = 14
  Universes = 60
  Depth = 41
INVARIANTS PrintHist Linear Serves
CHECK_DEADLOCK FALSE
