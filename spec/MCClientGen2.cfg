SPECIFICATION GenSpec
ACTION_CONSTRAINT PrintEdges
CONSTANTS
  MCNames = {"n1", "n2"}
  MCKeys = {"k1", "k2"}
  Universe = 2
  Wide = FALSE
VIEW MCView
INVARIANTS OneChain Remember TypeOK NoEquivocationHere
PROPERTIES KeysKept PromiseKept SameEpoch
CHECK_DEADLOCK FALSE
