SPECIFICATION SSpec
CONSTANTS
  Top = 255
  Depth = 50
INVARIANTS PrintHist
CHECK_DEADLOCK FALSE
