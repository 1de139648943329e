SPECIFICATION MCSpec
CONSTANTS
  MaxEpoch = 3
  MCNames = {"n1", "n2"}
  MCKeys = {"k1", "k2"}
  MCDeadlines = {1, 2}
  MCCaps = {1, 2, 3}
  Huge = 1000000
VIEW MCView
INVARIANTS Linear Faithful AppendOnly Promises TBOnlyPending Retention
PROPERTIES Immutable Fulfilled EvictOnlyIfFull PolicyDelay
ACTION_CONSTRAINT PrintEdges
CHECK_DEADLOCK FALSE
