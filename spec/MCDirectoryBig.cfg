SPECIFICATION MCSpec
CONSTANTS
  MaxEpoch = 5
  MCNames = {"n1", "n2", "n3"}
  MCKeys = {"k1"}
  MCDeadlines = {1, 2}
  MCCaps = {1, 2, 3, 4, 5}
  Huge = 1000000
VIEW MCView
INVARIANTS Linear Faithful AppendOnly Promises TBOnlyPending Retention
PROPERTIES Immutable Fulfilled EvictOnlyIfFull PolicyDelay
CHECK_DEADLOCK FALSE
