SPECIFICATION PSpec
CONSTANTS
  PermNames = {"n1"}
  PermKeys = {"k1", "k2"}
  NumAddrs = 3
VIEW PView
INVARIANTS Promises Faithful TBOnlyPending
PROPERTIES OnlyPermitted PermsFixed RefusedNoEffect
ACTION_CONSTRAINT PrintEdges
CHECK_DEADLOCK FALSE
