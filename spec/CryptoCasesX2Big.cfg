SPECIFICATION Spec
CONSTANTS
  Which = "X02"
  NMix = 0
  NFlip = 40
  NForge = 0
  NOpen = 70
  NDig = 70
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
