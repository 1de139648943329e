SPECIFICATION TSpec
CONSTANTS
  HS = 32
  BitsPer = 8
CHECK_DEADLOCK FALSE
