SPECIFICATION LSpec
CONSTANTS
  Keys = {"a", "b"}
  Vals = {"x", "y"}
  MaxWrites = 3
  Sync = TRUE
  Whole = TRUE
INVARIANT Reads
PROPERTIES Durable Atomic
CHECK_DEADLOCK FALSE
