SPECIFICATION Spec
CONSTANTS
  HS = 3
  BitsPer = 1
  CheckShape = TRUE
INVARIANTS OneAnswer Both
CHECK_DEADLOCK FALSE
VIEW View
