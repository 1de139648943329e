SPECIFICATION LSpec
CONSTANTS
  Keys = {"a", "b"}
  Vals = {"x", "y"}
  MaxWrites = 3
  Sync = FALSE
  Whole = TRUE
PROPERTIES Durable
CHECK_DEADLOCK FALSE
