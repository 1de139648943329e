SPECIFICATION Spec
CONSTANTS
  Which = "X02"
  NMix = 0
  NFlip = 3
  NForge = 0
  NOpen = 30
  NDig = 60
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
