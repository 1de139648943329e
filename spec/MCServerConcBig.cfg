SPECIFICATION Spec
CONSTANTS
  Clients = {c1, c2, c3}
  Names = {n1}
  Keys = {k1, k2}
  MaxEpoch = 1
  Locks = {"reg", "look", "upd"}
INVARIANTS Atomic Consistent

CHECK_DEADLOCK FALSE
