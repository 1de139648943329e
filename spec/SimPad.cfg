SPECIFICATION SSpec
CONSTANTS
  Depth = 90
  N = 24
INVARIANTS PrintHist Latest Distinct
CHECK_DEADLOCK FALSE
