SPECIFICATION Spec
CONSTANTS
  Clients = {c1, c2}
  Names = {n1}
  Keys = {k1, k2}
  MaxEpoch = 2
  Locks = {"reg", "look", "upd"}
INVARIANTS Atomic Consistent
PROPERTY Answered
CHECK_DEADLOCK FALSE
