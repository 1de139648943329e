SPECIFICATION LSpec
CONSTANTS
  Keys = {"a", "b"}
  Vals = {"x"}
  MaxWrites = 4
  Sync = TRUE
  Whole = TRUE
INVARIANT Reads
PROPERTIES Durable Atomic
CHECK_DEADLOCK FALSE
