SPECIFICATION LSpec
CONSTANTS
  Keys = {"a", "b"}
  Vals = {"x", "y"}
  MaxWrites = 3
  Sync = TRUE
  Whole = FALSE
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
