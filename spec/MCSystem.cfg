SPECIFICATION MCSpec
CONSTANTS
  Clients = {"c1", "c2"}
  MCNames = {"n1"}
  MCKeys = {"k1", "k2"}
  MaxEpoch = 3
  MCCaps = {1, 2}
VIEW MCView
INVARIANTS ClientsRight AnswersRight Agreement AppendOnly Promises
PROPERTIES Advance NeverRefused
ACTION_CONSTRAINT PrintEdges
CHECK_DEADLOCK FALSE
