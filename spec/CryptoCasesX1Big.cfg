SPECIFICATION Spec
CONSTANTS
  Which = "X01"
  NMix = 30000
  NFlip = 40
  NForge = 600
  NOpen = 0
  NDig = 0
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
