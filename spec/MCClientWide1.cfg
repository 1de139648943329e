SPECIFICATION MCSpec
CONSTANTS
  MCNames = {"n1", "n2"}
  MCKeys = {"k1"}
  Universe = 1
  Wide = TRUE
VIEW MCView
INVARIANTS OneChain Remember TypeOK NoEquivocationHere
PROPERTIES KeysKept PromiseKept SameEpoch
CHECK_DEADLOCK FALSE
