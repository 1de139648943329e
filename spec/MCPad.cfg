SPECIFICATION MCSpec
CONSTANTS
  MaxEpoch = 3
  MaxVer = 3
  Names = {"n1", "n2", "n3"}
  Vals = {"k1", "k2"}
  Caps = {1, 2, 100}
VIEW MCView
INVARIANTS Latest Distinct Answered
PROPERTIES Frozen
ACTION_CONSTRAINT PrintEdges
CHECK_DEADLOCK FALSE
