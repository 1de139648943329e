SPECIFICATION Spec
CONSTANTS
  Clients = {c1, c2}
  Names = {n1}
  Keys = {k1, k2}
  MaxEpoch = 2
  Locks = {"reg", "upd"}
INVARIANT Atomic

CHECK_DEADLOCK FALSE
