SPECIFICATION MCSpec
CONSTANTS
  Clients = {"c1", "c2"}
  MCNames = {"n1", "n2"}
  MCKeys = {"k1", "k2"}
  MaxEpoch = 2
  MCCaps = {1, 2}
VIEW MCView
INVARIANTS ClientsRight AnswersRight Agreement AppendOnly Promises
PROPERTIES Advance NeverRefused
CHECK_DEADLOCK FALSE
