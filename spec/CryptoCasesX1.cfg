SPECIFICATION Spec
CONSTANTS
  Which = "X01"
  NMix = 2000
  NFlip = 2
  NForge = 40
  NOpen = 0
  NDig = 0
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
