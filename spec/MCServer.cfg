SPECIFICATION MCSpec
CONSTANTS
  MaxEpoch = 1
  MCPerms <- Perms2
  MCKeys = {"k1"}
  Conns = {"c1"}
VIEW MCView
INVARIANTS DirInv Drained
PROPERTIES OnlyPermitted PermsFixed RefusedNoEffect OnlyByTimer OnlyByReload Immutable Fulfilled ShutdownEnds
CHECK_DEADLOCK FALSE
